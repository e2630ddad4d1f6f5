//! Explicit steps: a run is a list of these, whoever chose them.
use crate::fault::{NO_PLAN, Plan};
use crate::op::Op;

macro_rules! acts {
    ($($a:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
        pub enum Act { $($a),* }
        impl Act {
            pub fn name(self) -> &'static str { match self { $(Act::$a => stringify!($a)),* } }
            pub fn parse(s: &str) -> Option<Act> { match s { $(stringify!($a) => Some(Act::$a),)* _ => None } }
        }
    };
}
acts!(
    Op, Load, Modify, Publish, SpuriousFail, Crash, Restart, Stall, Read, Lock, Unlock, Send, Deliver, Duplicate, Drop,
    Store, Tear, Truncate, Extend, Flip, Import, Export, Append, Catchup, Heal, Twin, Reset
);

#[derive(Clone, PartialEq)]
pub struct Step {
    pub act: Act,
    /// Task / node / client.
    pub t: u32,
    pub a: u32,
    pub b: u32,
    pub plan: Plan,
    pub op: Option<Op>,
}
impl Step {
    pub fn new(act: Act, t: u32) -> Step {
        Step { act, t, a: 0, b: 0, plan: NO_PLAN, op: None }
    }
    pub fn op(t: u32, op: Op) -> Step {
        Step { act: Act::Op, t, a: 0, b: 0, plan: NO_PLAN, op: Some(op) }
    }
    pub fn with(mut self, a: u32, b: u32) -> Step {
        self.a = a;
        self.b = b;
        self
    }
    pub fn planned(mut self, p: Plan) -> Step {
        self.plan = p;
        self
    }
    pub fn text(&self) -> String {
        let p = &self.plan;
        let mut s = format!("{} t={} a={} b={}", self.act.name(), self.t, self.a, self.b);
        if *p != NO_PLAN {
            s.push_str(&format!(
                " fault=conv:{},alloc:{},all:{},sink:{},call:{}",
                p.conv_at, p.alloc_at, p.alloc_all as u8, p.sink, p.sink_call
            ));
        }
        if let Some(o) = &self.op {
            s.push_str(" | ");
            s.push_str(&o.text());
        }
        s
    }
    pub fn parse(s: &str) -> Option<Step> {
        let (h, o) = match s.split_once(" | ") {
            Some((h, o)) => (h, Some(o)),
            None => (s, None),
        };
        let mut it = h.split_whitespace();
        let mut st = Step::new(Act::parse(it.next()?)?, 0);
        for t in it {
            let (k, v) = t.split_once('=')?;
            match k {
                "t" => st.t = v.parse().ok()?,
                "a" => st.a = v.parse().ok()?,
                "b" => st.b = v.parse().ok()?,
                "fault" => {
                    for x in v.split(',') {
                        let (k, v) = x.split_once(':')?;
                        let n: u32 = v.parse().ok()?;
                        match k {
                            "conv" => st.plan.conv_at = n,
                            "alloc" => st.plan.alloc_at = n,
                            "all" => st.plan.alloc_all = n != 0,
                            "sink" => st.plan.sink = n,
                            "call" => st.plan.sink_call = n,
                            _ => return None,
                        }
                    }
                }
                _ => return None,
            }
        }
        if let Some(o) = o {
            st.op = Some(Op::parse(&mut o.split_whitespace())?);
        }
        Some(st)
    }
}
