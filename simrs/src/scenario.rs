//! One simulated execution, as data.
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pace {
    /// 0 as shipped, 1 fixed size `a`, 2 sizes drawn from seed `a` up to `b`, 3 unbounded
    pub mode: u8,
    pub a: u64,
    pub b: u64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Damage {
    /// 0 none, 1 bit flips, 2 truncate, 3 zero range, 4 torn (prefix of this blob, rest of
    /// another one), 5 trailing bytes, 6 duplicated sector
    pub kind: u8,
    pub a: u64,
    pub b: u64,
    pub other: i64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub kind: String,
    pub doc: String,
    pub spec: i64,
    pub pace: Pace,
    /// Unwind at the n-th interruption point (0: never)
    pub cancel: u64,
    pub damage: Damage,
    pub align: u8,
    /// Arguments lie in a buffer which the caller reuses for every call
    pub host: bool,
    /// The call is made this many times (0: once)
    pub times: u64,
    /// The calls before the last one are for other documents
    pub vary: bool,
    /// Cancel point in the set-up stage etc. are not modelled; the op to compare with
    pub same_as: Option<Box<Op>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sched {
    pub seed: u64,
    pub mean: u64,
    pub policy: i32,
    pub stall: u32,
    pub spurious: u32,
    pub sync: u32,
    pub segments: Option<Vec<(u64, u64)>>,
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub property: String,
    pub warm: bool,
    pub specs: Vec<String>,
    pub threads: Vec<Vec<Op>>,
    pub sched: Sched,
}

impl Op {
    pub fn to_json(&self) -> Value {
        let mut v = json!({"kind": self.kind, "doc": self.doc, "spec": self.spec});
        let m = v.as_object_mut().unwrap();
        if self.pace.mode != 0 {
            m.insert("pace".into(), json!([self.pace.mode, self.pace.a, self.pace.b]));
        }
        if self.cancel != 0 {
            m.insert("cancel".into(), json!(self.cancel));
        }
        if self.damage.kind != 0 {
            m.insert("damage".into(), json!([self.damage.kind, self.damage.a, self.damage.b, self.damage.other]));
        }
        if self.align != 0 {
            m.insert("align".into(), json!(self.align));
        }
        if self.host {
            m.insert("host".into(), json!(true));
        }
        if self.times != 0 {
            m.insert("times".into(), json!(self.times));
            m.insert("vary".into(), json!(self.vary));
        }
        if let Some(o) = &self.same_as {
            m.insert("same_as".into(), o.to_json());
        }
        v
    }
    pub fn from_json(v: &Value) -> Op {
        let n = |k: &str, i: usize| v[k][i].as_u64().unwrap_or(0);
        Op {
            kind: v["kind"].as_str().unwrap_or("").into(),
            doc: v["doc"].as_str().unwrap_or("").into(),
            spec: v["spec"].as_i64().unwrap_or(-1),
            pace: Pace { mode: n("pace", 0) as u8, a: n("pace", 1), b: n("pace", 2) },
            cancel: v["cancel"].as_u64().unwrap_or(0),
            damage: Damage { kind: n("damage", 0) as u8, a: n("damage", 1), b: n("damage", 2), other: v["damage"][3].as_i64().unwrap_or(-1) },
            align: v["align"].as_u64().unwrap_or(0) as u8,
            host: v["host"].as_bool().unwrap_or(false),
            times: v["times"].as_u64().unwrap_or(0),
            vary: v["vary"].as_bool().unwrap_or(false),
            same_as: v.get("same_as").map(|o| Box::new(Op::from_json(o))),
        }
    }
}

impl Scenario {
    pub fn to_json(&self) -> Value {
        json!({
            "property": self.property,
            "warm": self.warm,
            "specs": self.specs,
            "threads": self.threads.iter().map(|t| t.iter().map(|o| o.to_json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "schedule": {
                "seed": self.sched.seed.to_string(), "mean_segment": self.sched.mean, "policy": self.sched.policy,
                "stall_per_1024": self.sched.stall, "spurious_per_1024": self.sched.spurious, "sync_per_1024": self.sched.sync,
                "segments": self.sched.segments,
            }
        })
    }
    pub fn from_json(v: &Value) -> Scenario {
        let s = &v["schedule"];
        Scenario {
            property: v["property"].as_str().unwrap_or("").into(),
            warm: v["warm"].as_bool().unwrap_or(false),
            specs: v["specs"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
            threads: v["threads"].as_array().map(|a| a.iter().map(|t| t.as_array().map(|o| o.iter().map(Op::from_json).collect()).unwrap_or_default()).collect()).unwrap_or_default(),
            sched: Sched {
                seed: s["seed"].as_str().and_then(|x| x.parse().ok()).unwrap_or(1),
                mean: s["mean_segment"].as_u64().unwrap_or(1000),
                policy: s["policy"].as_i64().unwrap_or(0) as i32,
                stall: s["stall_per_1024"].as_u64().unwrap_or(0) as u32,
                spurious: s["spurious_per_1024"].as_u64().unwrap_or(0) as u32,
                sync: s["sync_per_1024"].as_u64().unwrap_or(0) as u32,
                segments: s["segments"].as_array().map(|a| a.iter().map(|p| (p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(1))).collect()),
            },
        }
    }
}
