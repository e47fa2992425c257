//! The host's executor; the programs behind the images are installed by the harness.
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Mutex;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Default, Clone)]
pub struct ExecutorEnv<'a> {
    frames: Vec<Vec<u8>>,
    _life: PhantomData<&'a ()>,
}
impl<'a> ExecutorEnv<'a> {
    pub fn builder() -> ExecutorEnvBuilder<'a> {
        ExecutorEnvBuilder::default()
    }
}
#[derive(Default, Clone)]
pub struct ExecutorEnvBuilder<'a> {
    env: ExecutorEnv<'a>,
}
impl<'a> ExecutorEnvBuilder<'a> {
    pub fn write_frame(&mut self, payload: &[u8]) -> &mut Self {
        self.env.frames.push(payload.to_vec());
        self
    }
    pub fn write<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<&mut Self> {
        self.env.frames.push(bincode::serialize(v).map_err(|e| Error(e.to_string()))?);
        Ok(self)
    }
    pub fn session_limit(&mut self, _: Option<u64>) -> &mut Self {
        self
    }
    pub fn segment_limit_po2(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> Result<ExecutorEnv<'a>> {
        Ok(std::mem::take(&mut self.env))
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Journal {
    pub bytes: Vec<u8>,
}
impl Journal {
    pub fn new(bytes: Vec<u8>) -> Self {
        Self { bytes }
    }
}
impl AsRef<[u8]> for Journal {
    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }
}
#[derive(Debug, Clone)]
pub struct SessionInfo {
    pub segments: Vec<()>,
    pub journal: Journal,
}
impl SessionInfo {
    pub fn cycles(&self) -> u64 {
        0
    }
}
type Program = fn(elf: &[u8], frames: Vec<Vec<u8>>) -> std::result::Result<Vec<u8>, String>;
static PROGRAM: Mutex<Option<Program>> = Mutex::new(None);
/// Installs what runs the images: given an image and the input frames, the journal.
pub fn set_program(p: Program) {
    *PROGRAM.lock().unwrap() = Some(p);
}
pub trait Executor {
    fn execute(&self, env: ExecutorEnv<'_>, elf: &[u8]) -> Result<SessionInfo>;
}
struct Local;
impl Executor for Local {
    fn execute(&self, env: ExecutorEnv<'_>, elf: &[u8]) -> Result<SessionInfo> {
        let p = PROGRAM.lock().unwrap().expect("no program installed");
        let journal = Journal { bytes: p(elf, env.frames).map_err(Error)? };
        Ok(SessionInfo { segments: vec![], journal })
    }
}
pub fn default_executor() -> Rc<dyn Executor> {
    Rc::new(Local)
}
