include!(concat!(env!("MC_GEN"), "/shapes5.rs"));
