//! Directories of modules that import each other, and what may become of their texts.

use simcore::world::{self, Entry, World};
use simcore::*;
use std::path::PathBuf;
use url::Url;

pub struct File {
    pub url: Url,
    pub path: PathBuf,
    pub dir: Vec<&'static str>,
    pub name: String,
    /// The text the world has for it; none for files that are only imported.
    pub original: Option<String>,
}

pub struct Workspace {
    pub files: Vec<File>,
    pub world: World,
}

const DIRS: [&[&str]; 7] = [
    &["w"],
    &["w", "lib"],
    &["w", "lib", "deep"],
    &["w", "with space"],
    &["w", "\u{e9}"],
    &["w", "a+b (1) & 'c', [d]"],
    &["w", "50% #1? x:y=%20"],
];

/// A way to write the path from one directory to a file.
pub fn spell(from: &[&str], to: &[&str], name: &str) -> String {
    let common = from.iter().zip(to).take_while(|(a, b)| a == b).count();
    let mut parts: Vec<String> = Vec::new();
    match gweighted(&[3, 2, 2]) {
        0 => parts.push(".".into()),
        1 => {}
        _ => parts.extend(["zz".into(), "..".into()]),
    }
    for _ in common..from.len() {
        parts.push("..".into());
    }
    for d in &to[common..] {
        if gchance(1, 8) {
            parts.push(".".into());
        }
        parts.push((*d).into());
    }
    parts.push(name.into());
    parts.join("/")
}

impl Workspace {
    pub fn draw() -> Workspace {
        let n = gen_range(2, 4) as usize;
        let mut dirs: Vec<&'static [&'static str]> = Vec::new();
        for _ in 0..n {
            dirs.push(DIRS[gweighted(&[8, 4, 2, 2, 2, 1, 1])]);
        }
        let names: Vec<String> = (0..n).map(|i| format!("m{}.tic", i)).collect();
        let encoded = gchance(1, 2);
        let d = dirs.clone();
        let world = world::build(n, &mut |target, importer, _| spell(d[importer], d[target], &names[target]));
        let mut files = Vec::new();
        for i in 0..n {
            files.push(file(dirs[i], &names[i], Some(world.modules[i].source.clone()), encoded));
        }
        // something that nothing needs to begin with
        files.push(file(DIRS[gen(2) as usize], "extra.tic", None, encoded));
        Workspace { files, world }
    }

    /// A text for a file, and whether it is made of whole lines of a program.
    pub fn text(&self, i: usize, wild: u32) -> (String, bool) {
        let mut whole = true;
        let mut s = match &self.files[i].original {
            _ if gchance(wild, 40) => {
                whole = false;
                simcore::text::soup()
            }
            Some(t) => t.clone(),
            None => format!("export let extra : int = {};\nexport type E = export E1 | E2 rec;\n", gen(9)),
        };
        if gchance(1, 4) && i < self.world.modules.len() {
            s = self.fewer(i);
        }
        for _ in 0..gen(3) {
            match gen(7) {
                6 => s = reflow(&s),
                0 => s = format!("{}{}", pick(&["\n", "\n\n", "-- \u{1F600}\n", "let above = \"\u{1F600}\u{e9}\"; "]), s),
                1 => {
                    let k = gen(self.files.len() as u32) as usize;
                    s = self.import(i, k, &s);
                }
                2 => s = decorate(&s),
                3 => {
                    s = s.replace("\r\n", "\n");
                    if gchance(1, 2) {
                        s = s.replace('\n', "\r\n");
                    }
                }
                4 => s = s.trim_end().to_owned(),
                _ => s = unexport(&s),
            }
        }
        if gchance(wild, 12) {
            whole = false;
            let n = gen_range(1, 4);
            s = simcore::text::damage(&s, n);
        }
        if gchance(1, 30) {
            s = String::new();
        }
        if !whole {
            // a lone carriage return ends a line for some clients, and not for others
            s = s.replace("\r\n", "\n").replace('\r', "");
        }
        (s, whole)
    }

    /// The text without some of the definitions.
    fn fewer(&self, i: usize) -> String {
        let mut m = self.world.modules[i].clone();
        let n = m.entries.len();
        let mut k = 0;
        m.entries.retain(|e| {
            k += 1;
            k == n || matches!(e, Entry::Import(_)) || !gchance(1, 5)
        });
        world::render(&mut m);
        m.source
    }

    /// One more import and a use of it.
    fn import(&self, i: usize, k: usize, s: &str) -> String {
        let path = spell(&self.files[i].dir, &self.files[k].dir, &self.files[k].name);
        let what = if self.files[k].original.is_some() { format!("val{}", k) } else { "extra".to_owned() };
        let n = gen(100);
        if k == i {
            probe("a file imports itself");
        }
        let line = match gen(3) {
            0 => format!("import more{} from \"{}\"; let use{} : int = more{}.{};", n, path, n, n, what),
            1 => format!("import more{}({}) from \"{}\"; export let use{} = {} + 1;", n, what, path, n, what),
            _ => format!("import ({}) from \"{}\";", what, path),
        };
        if gchance(1, 2) {
            format!("{}\n{}", line, s)
        } else {
            format!("{}\n{}\n", s, line)
        }
    }
}

/// Some clients percent-encode only what they have to, others all that they may.
fn file(dir: &[&'static str], name: &str, original: Option<String>, encoded: bool) -> File {
    let mut path = PathBuf::from("/");
    for d in dir {
        path.push(d);
    }
    path.push(name);
    let mut url = Url::from_file_path(&path).unwrap();
    if encoded {
        let mut text = "file://".to_owned();
        for b in path.to_str().unwrap().bytes() {
            match b {
                b'/' | b'-' | b'.' | b'_' | b'~' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => text.push(b as char),
                b => text.push_str(&format!("%{:02X}", b)),
            }
        }
        if text != url.as_str() {
            probe("urls with more encoded than the server would");
        }
        url = Url::parse(&text).unwrap();
    }
    File { url, path, dir: dir.to_vec(), name: name.to_owned(), original }
}

/// Strings with characters of all sizes in front of lines, and lines joined.
fn decorate(s: &str) -> String {
    let mut out = String::new();
    let mut between = true;
    for (k, line) in s.lines().enumerate() {
        let at_item = between;
        between = line.is_empty() && between || line.trim_end().ends_with(';') || line.starts_with("--") && between;
        if at_item && !line.starts_with("--") && gchance(1, 3) {
            let t = *pick(&["\u{1F600}", "\u{e9}", "\u{4e16}\u{754c}", "a\u{301}", "\u{1F469}\u{200D}\u{1F680}", "\t"]);
            out.push_str(&format!("let deco{} : string = \"{}\"; ", k, t));
            probe("wide characters before code");
        }
        out.push_str(line);
        out.push_str(if line.contains("--") || !gchance(1, 4) { "\n" } else { " " });
    }
    out
}

/// Lines broken after words.
fn reflow(s: &str) -> String {
    let crlf = s.contains("\r\n");
    let mut out = String::new();
    for line in s.lines() {
        if line.contains("--") || line.contains('"') || !gchance(1, 3) {
            out.push_str(line);
        } else {
            for (k, word) in line.split(' ').enumerate() {
                if k > 0 {
                    out.push_str(if !gchance(1, 4) { " " } else if crlf { "\r\n" } else { "\n" });
                }
                out.push_str(word);
            }
            probe("lines broken after words");
        }
        out.push_str(if crlf { "\r\n" } else { "\n" });
    }
    out
}

/// Takes some exports back.
fn unexport(s: &str) -> String {
    let mut out = String::new();
    for (k, part) in s.split("export ").enumerate() {
        if k > 0 && !gchance(1, 4) {
            out.push_str("export ");
        }
        out.push_str(part);
    }
    out
}
