include!(concat!(env!("MC_GEN"), "/shapes2.rs"));
