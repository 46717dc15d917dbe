use crate::rng::Rng;
use crate::world::Exec;
use serde_json::Value;

pub mod boost;
pub mod data;
pub mod gbm;
pub mod learner;
pub mod logger;
pub mod measure;
pub mod misc;
pub mod nn;
pub mod rounds;
pub mod sample;
pub mod tree;
pub mod vote;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value;
    fn exec(&self, case: &Value, ex: &mut Exec);
    fn runs(&self, thorough: bool) -> u64;
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubs(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str] {
        &["the simulated rayon pool only produces fork/join orders and split decisions that the real pool can produce"]
    }
    /// Counters that must not stay at zero over a batch.
    fn expected(&self) -> &'static [&'static str] {
        &[]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    let mut v: Vec<&'static dyn Prop> = Vec::new();
    v.extend(boost::all());
    v.extend(logger::all());
    v.extend(data::all());
    v.extend(sample::all());
    v.extend(tree::all());
    v.extend(gbm::all());
    v.extend(learner::all());
    v.extend(nn::all());
    v.extend(misc::all());
    v.extend(vote::all());
    v.extend(rounds::all());
    v.extend(measure::all());
    v
}
pub fn get(id: &str) -> Option<&'static dyn Prop> {
    all().into_iter().find(|p| p.id() == id)
}

/// Deserialise a case; a malformed (shrunk) one shows nothing.
pub fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}
