include!(concat!(env!("MC_GEN"), "/shapes0.rs"));
