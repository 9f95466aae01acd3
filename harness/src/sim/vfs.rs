//! In-memory file system of the simulated machine.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    File(usize),
    /// symbolic link to an absolute path
    Link(String),
}

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub writers: u128, // bit mask of simulated processes that ever wrote or truncated it
    pub mtime: i64,    // ns, simulated clock of the last change
}

#[derive(Clone, Default)]
pub struct Vfs {
    pub nodes: BTreeMap<String, Node>,
    pub inodes: Vec<Inode>,
    /// bytes that may still be written (disk-full fault)
    pub capacity: Option<u64>,
}

/// File names are bytes; those that are no UTF-8 are kept as characters of a private area.
pub fn decode(mut b: &[u8]) -> String {
    let mut s = String::new();
    loop {
        match std::str::from_utf8(b) {
            Ok(t) => {
                s.push_str(t);
                return s;
            }
            Err(e) => {
                let n = e.valid_up_to();
                s.push_str(std::str::from_utf8(&b[..n]).unwrap());
                s.push(char::from_u32(0x10fe00 + b[n] as u32).unwrap());
                b = &b[n + 1..];
            }
        }
    }
}
pub fn encode(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        match c as u32 {
            x @ 0x10fe80..=0x10feff => v.push((x - 0x10fe00) as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}

pub fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}
pub fn base(p: &str) -> &str {
    match p.rfind('/') {
        Some(i) => &p[i + 1..],
        None => p,
    }
}
/// Absolute, lexically normalised path.
pub fn normalise(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

impl Vfs {
    pub fn new(roots: &[&str]) -> Self {
        let mut v = Vfs::default();
        v.nodes.insert("/".into(), Node::Dir);
        for r in roots {
            v.mkdirs(r);
        }
        v
    }
    pub fn mkdirs(&mut self, p: &str) {
        let mut cur = String::new();
        for c in p.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            self.nodes.entry(cur.clone()).or_insert(Node::Dir);
        }
    }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        self.mkdirs(parent(p));
        let i = self.inodes.len();
        self.inodes.push(Inode { data: data.to_vec(), writers: 0, mtime: 0 });
        self.nodes.insert(p.to_string(), Node::File(i));
    }
    /// Follow the symbolic links in an absolute path (".." was resolved before).
    pub fn resolve(&self, p: &str, last: bool) -> Result<String, i32> {
        let mut rest: Vec<String> = p.split('/').filter(|c| !c.is_empty()).rev().map(|c| c.to_string()).collect();
        let mut cur = String::new();
        let mut hops = 0;
        while let Some(c) = rest.pop() {
            let next = format!("{}/{}", cur, c);
            match self.nodes.get(&next) {
                Some(Node::Link(t)) if last || !rest.is_empty() => {
                    hops += 1;
                    if hops > 8 {
                        return Err(libc::ELOOP);
                    }
                    rest.extend(t.split('/').filter(|c| !c.is_empty()).rev().map(|c| c.to_string()));
                    cur.clear();
                }
                _ => cur = next,
            }
        }
        Ok(if cur.is_empty() { "/".into() } else { cur })
    }
    pub fn link(&mut self, p: &str, target: &str) {
        self.mkdirs(parent(p));
        self.nodes.insert(p.to_string(), Node::Link(target.to_string()));
    }
    pub fn get(&self, p: &str) -> Option<&Node> {
        self.nodes.get(p)
    }
    pub fn is_dir(&self, p: &str) -> bool {
        matches!(self.nodes.get(p), Some(Node::Dir))
    }
    pub fn file(&self, p: &str) -> Option<&[u8]> {
        match self.nodes.get(&self.resolve(p, true).ok()?) {
            Some(Node::File(i)) => Some(&self.inodes[*i].data),
            _ => None,
        }
    }
    /// Err(errno) when some ancestor is missing or not a directory.
    pub fn check_parent(&self, p: &str) -> Result<(), i32> {
        let mut cur = parent(p);
        // nearest ancestor decides between ENOENT and ENOTDIR
        match self.nodes.get(cur) {
            Some(Node::Dir) => Ok(()),
            Some(_) => Err(libc::ENOTDIR),
            None => {
                while cur != "/" {
                    cur = parent(cur);
                    match self.nodes.get(cur) {
                        Some(Node::Dir) => return Err(libc::ENOENT),
                        Some(_) => return Err(libc::ENOTDIR),
                        None => {}
                    }
                }
                Err(libc::ENOENT)
            }
        }
    }
    pub fn children(&self, dir: &str) -> Vec<String> {
        let pre = if dir == "/" { "/".to_string() } else { format!("{}/", dir) };
        self.nodes
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, _)| k[pre.len()..].to_string())
            .collect()
    }
    /// path -> contents of all files below dir
    pub fn files_below(&self, dir: &str) -> BTreeMap<String, Vec<u8>> {
        let pre = format!("{}/", dir.trim_end_matches('/'));
        self.nodes
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter_map(|(k, n)| match n {
                Node::File(i) => Some((k.clone(), self.inodes[*i].data.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn dirs_below(&self, dir: &str) -> Vec<String> {
        let pre = format!("{}/", dir.trim_end_matches('/'));
        self.nodes
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(_, n)| matches!(n, Node::Dir))
            .map(|(k, _)| k.clone())
            .collect()
    }
}
