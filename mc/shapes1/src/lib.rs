include!(concat!(env!("MC_GEN"), "/shapes1.rs"));
