include!(concat!(env!("MC_GEN"), "/shapes6.rs"));
