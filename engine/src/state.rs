//! Path state.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    Normal,
    Entry,
    RunMain,
    Catch,
}
#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub dst: u32,
    pub kind: FK,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FdK {
    Stdin,
    Stdout,
    Stderr,
    File(usize),
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub kind: FdK,
    pub pos: usize,
    pub append: bool,
}
#[derive(Clone, Default)]
pub struct Env {
    pub args: Vec<Vec<V>>,
    pub files: Vec<(Vec<u8>, Rc<Vec<V>>)>,
    pub stdin: Rc<Vec<V>>,
    pub plan: Rc<Vec<V>>,
    pub plan_pos: usize,
    pub wplan: Rc<Vec<V>>,
    pub wplan_pos: usize,
    pub vars: Vec<Vec<u8>>,
    pub hash: u64,
    /// random words still delivered, plus one; 0 = no limit
    pub rng_left: u64,
    pub rng_free: u64,
    pub fds: Vec<Option<Fd>>,
    pub out: Vec<V>,
    pub err: Vec<V>,
}
#[derive(Clone)]
pub struct Run {
    pub mem: Mem,
    pub depth: usize,
    pub dst: u32,
}
pub type Dom = [u64; 4];
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub next_obj: u32,
    pub pc: Rc<Vec<E>>,
    pub known: Rc<FxMap<E, bool>>,
    pub dom: Rc<Vec<Dom>>,
    pub linked: Rc<Vec<bool>>,
    pub model: Rc<Vec<u64>>,
    pub nvars: u32,
    pub env: Rc<Env>,
    pub obs: Rc<Vec<V>>,
    pub instrs: u64,
    pub run: Option<Rc<Run>>,
    pub errno: u32,
    pub forks: u32,
}

pub enum Stop {
    Violation(String, String),
    End,
    Infeasible,
    Unsup(String),
    Incomplete(String),
}
pub type R<T> = Result<T, Stop>;
