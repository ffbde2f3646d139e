//! Contract files: directives `//@ ...`, each followed by its text.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub opts: Vec<String>,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub spec: String,
    pub attrs: Vec<String>,
    /// (anchor, text): anchors are e.g. `loop 0`, `loop 0 begin`, `begin`, `end`, `after let x`, `before call f`
    pub anchors: Vec<(String, String)>,
}

impl FnContract {
    pub fn renamed(&self, m: &BTreeMap<String, String>) -> FnContract {
        if m.is_empty() {
            return self.clone();
        }
        let mut c = self.clone();
        c.spec = crate::apply_rename(&c.spec, m);
        for a in c.anchors.iter_mut() {
            a.0 = crate::apply_rename(&a.0, m);
            a.1 = crate::apply_rename(&a.1, m);
        }
        c
    }
}

#[derive(Default, Clone, Debug)]
pub struct TypeContract {
    pub opts: Vec<String>,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct ModContract {
    pub name: String,
    pub file: Option<String>,
    pub header: String,
    pub raw_top: String,
    pub raw: String,
    pub types: BTreeMap<String, TypeContract>,
    pub fns: BTreeMap<String, FnContract>,
    pub ignore_new: bool,
    pub drops_all_new: bool,
    /// emitted code: the function whose `quote!` templates hold it, and what to put for interpolations
    pub template: Option<String>,
    pub subst: BTreeMap<String, String>,
    /// (template, meaning)
    pub quotes: Vec<(String, String)>,
}

enum Cur {
    None,
    Header,
    RawTop,
    Raw,
    Quote,
    Type(String),
    FnSpec(String),
    Anchor(String, usize),
}

pub fn parse_contract(file: &str, text: &str, mods: &mut Vec<ModContract>) {
    let mut cur = Cur::None;
    let mut curfn = String::new();
    for line in text.lines() {
        if let Some(d) = line.strip_prefix("//@ ") {
            let d = d.trim();
            let mut w = d.split_whitespace();
            let head = w.next().unwrap();
            let rest: Vec<&str> = w.collect();
            match head {
                "module" => {
                    let mut m = ModContract { name: rest[0].into(), ..Default::default() };
                    for o in &rest[1..] {
                        if let Some(f) = o.strip_prefix("file=") {
                            m.file = Some(f.into());
                        } else if let Some(f) = o.strip_prefix("template=") {
                            m.template = Some(f.into());
                        } else if *o == "ignore_new" {
                            m.ignore_new = true;
                        } else {
                            panic!("{}: bad module opt {}", file, o);
                        }
                    }
                    mods.push(m);
                    cur = Cur::None;
                }
                "subst" => {
                    mods.last_mut().unwrap().subst.insert(rest[0].into(), rest[1..].join(" "));
                    cur = Cur::None;
                }
                // a template's meaning, its text follows
                "quote" => {
                    mods.last_mut().unwrap().quotes.push((String::new(), rest.join(" ")));
                    cur = Cur::Quote;
                }
                "header" => cur = Cur::Header,
                "raw" => cur = if rest.first() == Some(&"top") { Cur::RawTop } else { Cur::Raw },
                "type" => {
                    let m = mods.last_mut().unwrap();
                    m.types.insert(
                        rest[0].into(),
                        TypeContract { opts: rest[1..].iter().map(|s| s.to_string()).collect(), text: String::new() },
                    );
                    cur = Cur::Type(rest[0].into());
                }
                "fn" => {
                    let m = mods.last_mut().unwrap();
                    let mut f = FnContract::default();
                    for o in &rest[1..] {
                        if let Some(r) = o.strip_prefix("ret=") {
                            f.ret = Some(r.into());
                        } else {
                            f.opts.push(o.to_string());
                        }
                    }
                    curfn = rest[0].to_string();
                    if m.fns.insert(curfn.clone(), f).is_some() {
                        panic!("{}: duplicate contract for {}", file, curfn);
                    }
                    cur = Cur::FnSpec(curfn.clone());
                }
                "rettype" => {
                    let m = mods.last_mut().unwrap();
                    m.fns.get_mut(&curfn).unwrap().rettype = Some(rest.join(" "));
                    cur = Cur::FnSpec(curfn.clone());
                }
                "attr" => {
                    let m = mods.last_mut().unwrap();
                    m.fns.get_mut(&curfn).unwrap().attrs.push(rest.join(" "));
                    cur = Cur::FnSpec(curfn.clone());
                }
                "lettype" => {
                    let m = mods.last_mut().unwrap();
                    m.fns.get_mut(&curfn).unwrap().anchors.push((format!("lettype {}", rest[0]), rest[1..].join(" ")));
                    cur = Cur::FnSpec(curfn.clone());
                }
                "loop" | "begin" | "end" | "after" | "before" => {
                    let m = mods.last_mut().unwrap();
                    let f = m.fns.get_mut(&curfn).unwrap();
                    f.anchors.push((d.split_whitespace().collect::<Vec<_>>().join(" "), String::new()));
                    cur = Cur::Anchor(curfn.clone(), f.anchors.len() - 1);
                }
                _ => panic!("{}: unknown directive {}", file, d),
            }
            continue;
        }
        let m = match mods.last_mut() {
            Some(m) => m,
            None => continue,
        };
        let t: &mut String = match &cur {
            Cur::None => continue,
            Cur::Header => &mut m.header,
            Cur::RawTop => &mut m.raw_top,
            Cur::Raw => &mut m.raw,
            Cur::Quote => &mut m.quotes.last_mut().unwrap().0,
            Cur::Type(n) => &mut m.types.get_mut(n).unwrap().text,
            Cur::FnSpec(n) => &mut m.fns.get_mut(n).unwrap().spec,
            Cur::Anchor(n, k) => &mut m.fns.get_mut(n).unwrap().anchors[*k].1,
        };
        t.push_str(line);
        t.push('\n');
    }
}
