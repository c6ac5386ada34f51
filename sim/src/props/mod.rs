use crate::model::Focus;
use crate::rng::Rng;
use serde_json::Value;

pub mod files;
pub mod conc;
pub mod damaged;
pub mod filelevel;
pub mod isolation;
pub mod random;
pub mod resources;
pub mod session;
pub mod store;

/// `Err((class, description))` is a violation
pub type Verdict = Result<(), (String, String)>;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn runs(&self, tier: u32) -> u64;
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value;
    /// whether a (shrunk) scenario is one the property speaks about
    fn valid(&self, scn: &Value) -> bool;
    fn run(&self, scn: &Value) -> Verdict;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<String>;
    fn expected_probes(&self) -> &'static [&'static str] {
        &[]
    }
}

pub fn bad<T>(class: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((class.to_string(), msg.into()))
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(files::FileProp { id: "C01" }),
        Box::new(files::FileProp { id: "C02" }),
        Box::new(conc::Conc),
        Box::new(damaged::Damaged),
        Box::new(session::Session { id: "C05", focus: Focus::Code }),
        Box::new(session::Session { id: "C06", focus: Focus::Views }),
        Box::new(session::Session { id: "C07", focus: Focus::Settings }),
        Box::new(session::Session { id: "C11", focus: Focus::Decl }),
        Box::new(filelevel::FileLevel),
        Box::new(resources::Res),
        Box::new(random::Random),
        Box::new(isolation::Isolation),
    ]
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    all().into_iter().find(|p| p.id() == id)
}

/// the oracles of the harness against known answers
pub fn selftest() -> Result<(), String> {
    let hex: String = crate::aes::encrypt(b"hello sketchware, this is a test").iter().map(|b| format!("{b:02x}")).collect();
    if hex != include_str!("../aes_vector.txt").trim() {
        return Err(format!("AES oracle: {hex}"));
    }
    if crate::aes::decrypt(&crate::aes::encrypt(b"abc")).as_deref() != Some(b"abc") {
        return Err("AES oracle: decryption".into());
    }
    Ok(())
}
