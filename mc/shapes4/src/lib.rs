include!(concat!(env!("MC_GEN"), "/shapes4.rs"));
