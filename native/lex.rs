// Compares the tokens of /repo's lexer (the file itself, included by path) with a reference scanner.
// usage: lex MAXLEN RANDOM SEED
#![allow(warnings)]
#[path = "LEXER_PATH"]
mod lexer;
use lexer::{Error, Lexer, Token};

#[derive(Debug, Clone, PartialEq)]
enum T {
    Tok(usize, String, usize),
    Err(usize, char),
}

fn word_char(c: char) -> bool {
    !c.is_whitespace() && !";&|(){}<>!$`*=".contains(c)
}

/// the reference: characters are consumed strictly from left to right
fn reference(s: &str) -> Vec<T> {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let n = cs.len();
    let at = |i: usize| if i < n { cs[i].0 } else { s.len() };
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        let c = cs[i].1;
        let next = if i + 1 < n { Some(cs[i + 1].1) } else { None };
        let mut tok = |j: usize, name: &str| {
            out.push(T::Tok(at(i), name.to_string(), at(j)));
            j
        };
        i = match c {
            '\n' => {
                let mut j = i;
                while j < n && cs[j].1 == '\n' {
                    j += 1;
                }
                tok(j, "NewlineList")
            }
            '#' => {
                let mut j = i;
                while j < n && cs[j].1 != '\n' {
                    j += 1;
                }
                j
            }
            ';' => tok(i + 1, "SemiColon"),
            '(' => tok(i + 1, "OpenParen"),
            ')' => tok(i + 1, "CloseParen"),
            '{' => tok(i + 1, "OpenBrace"),
            '}' => tok(i + 1, "CloseBrace"),
            '=' => tok(i + 1, "Equals"),
            '!' => tok(i + 1, "Bang"),
            '|' => if next == Some('|') { tok(i + 2, "Or") } else { tok(i + 1, "Pipe") },
            '&' => if next == Some('&') { tok(i + 2, "And") } else { tok(i + 1, "Ampersand") },
            '>' => match next { Some('>') => tok(i + 2, "DoubleGreater"), Some('&') => tok(i + 2, "GreaterAnd"), _ => tok(i + 1, "Greater") },
            '<' => match next { Some('<') => tok(i + 2, "DoubleLess"), Some('&') => tok(i + 2, "LessAnd"), _ => tok(i + 1, "Less") },
            '$' if next == Some('{') => tok(i + 1, "Dollar"),
            '"' | '\'' | '`' | '$' if c != '$' || next == Some('(') => {
                let close = if c == '$' { ')' } else { c };
                let mut j = i + 1;
                while j < n && cs[j].1 != close {
                    j += 1;
                }
                if j < n {
                    j += 1;
                }
                let t = format!("Word({})", &s[at(i)..at(j)]);
                tok(j, &t)
            }
            c if c == '$' || word_char(c) => {
                let mut j = i + 1;
                while j < n && word_char(cs[j].1) {
                    j += 1;
                }
                let w = &s[at(i)..at(j)];
                let redirect = j < n && (cs[j].1 == '<' || cs[j].1 == '>');
                let t = match w {
                    "for" => "For".to_string(), "in" => "In".to_string(), "while" => "While".to_string(), "if" => "If".to_string(), "then" => "Then".to_string(), "else" => "Else".to_string(),
                    "elif" => "Elif".to_string(), "fi" => "Fi".to_string(), "do" => "Do".to_string(), "done" => "Done".to_string(), "case" => "Case".to_string(), "esac" => "Esac".to_string(),
                    w if redirect && w.parse::<i32>().is_ok() => format!("Number({})", w.parse::<i32>().unwrap()),
                    w => format!("Word({})", w),
                };
                tok(j, &t)
            }
            c if c.is_whitespace() => i + 1,
            c => {
                out.push(T::Err(at(i), c));
                i + 1
            }
        };
    }
    out
}

fn shown(t: &Token) -> String {
    format!("{}", t)
}

/// None: agrees
fn check(s: &str) -> Option<String> {
    let mut lx = Lexer::new(s);
    let mut got = Vec::new();
    let mut eof = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 4 * s.len() + 16 {
            return Some(format!("more than {} tokens", steps));
        }
        match lx.next() {
            None => break,
            Some(Ok((a, t, b))) => {
                if eof > 0 {
                    return Some("a token follows the end marker".to_string());
                }
                if t == Token::EOF {
                    eof += 1;
                } else {
                    got.push(T::Tok(a, shown(&t), b));
                }
            }
            Some(Err(Error::UnrecognizedChar(a, c, _))) => got.push(T::Err(a, c)),
        }
    }
    for _ in 0..3 {
        if lx.next().is_some() {
            return Some("a token follows the end".to_string());
        }
    }
    if eof != 1 {
        return Some(format!("{} end markers", eof));
    }
    let want = reference(s);
    // the property as such: in order, not overlapping, and nothing left out
    let mut covered = vec![false; s.len()];
    let mut last = 0;
    for t in &got {
        let (a, b) = match t { T::Tok(a, _, b) => (*a, *b), T::Err(a, c) => (*a, *a + c.len_utf8()) };
        if a < last || b <= a || b > s.len() {
            return Some(format!("token {:?} is out of order or out of range", t));
        }
        for x in &mut covered[a..b] { *x = true; }
        last = b;
        if let T::Tok(a, n, b) = t {
            if n.starts_with("Word(") && n[5..n.len() - 1] != s[*a..*b] {
                return Some(format!("token {:?} is not the text it covers", t));
            }
        }
    }
    if got != want {
        let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
        return Some(format!("token {}: {:?}, expected {:?}", k, got.get(k), want.get(k)));
    }
    None
}

static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn main() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = COUNT.load(std::sync::atomic::Ordering::Relaxed);
            if n == last.0 { last.1 += 1; } else { last = (n, 0); }
            if last.1 > 20 {
                println!("BAD\t{:?}\tdoes not end", CURRENT.lock().unwrap());
                println!("COUNT {}", n);
                std::process::exit(1);
            }
        }
    });
    let a: Vec<String> = std::env::args().collect();
    let maxlen: usize = a[1].parse().unwrap();
    let random: u64 = a[2].parse().unwrap();
    let mut seed: u64 = a[3].parse::<u64>().unwrap() * 2 + 1;
    std::panic::set_hook(Box::new(|_| {}));
    let alpha: Vec<&str> = vec!["a", "1", " ", "\n", ";", "|", "&", "`", "$", "#", "(", ")", "{", "}", "<", ">", "=", "\"", "'", "!", "*", "é", "-", "\t"];
    let long: Vec<&str> = vec!["for", "in", "while", "until", "if", "then", "else", "elif", "fi", "do", "done", "case", "esac", "break", "12", "2147483647", "2147483648", "+5", "日本", "\u{a0}", "\u{2028}", "\r", "$(", "${", "&&", "||", ">>", "<<", ">&", "<&", "\\", "~", "[", "]", "^", ",", "%", "@", ".", "/", "word", "A_b9", "\u{1F600}", "\0", "#c\n", "'q r'", "\"d e\"", "`x y`", "$(p q)", "$HOME"];
    let mut n: u64 = 0;
    let mut bad = 0;
    let mut run = |s: &str| {
        n += 1;
        { let mut c = CURRENT.lock().unwrap(); c.clear(); c.push_str(s); }
        COUNT.store(n, std::sync::atomic::Ordering::Relaxed);
        let r = std::panic::catch_unwind(|| check(s)).unwrap_or(Some("panic".to_string()));
        if let Some(m) = r {
            println!("BAD\t{:?}\t{}", s, m);
            bad += 1;
            if bad >= 3 {
                println!("COUNT {}", n);
                std::process::exit(1);
            }
        }
    };
    run("");
    let mut idx = vec![0usize; 0];
    for len in 1..=maxlen {
        idx = vec![0; len];
        'all: loop {
            let s: String = idx.iter().map(|&i| alpha[i]).collect();
            run(&s);
            let mut p = len;
            loop {
                if p == 0 { break 'all; }
                p -= 1;
                idx[p] += 1;
                if idx[p] < alpha.len() { break; }
                idx[p] = 0;
            }
        }
    }
    for x in &long { for y in alpha.iter().chain(long.iter()) { for z in alpha.iter() { run(&format!("{}{}{}", x, y, z)); run(&format!("{}{}{}", z, x, y)); } } }
    let mut next = |m: usize| { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed % m as u64) as usize };
    for i in 0..random {
        let len = if i % 50 == 0 { 200 + next(3000) } else { 4 + next(40) };
        let mut s = String::new();
        for _ in 0..len {
            if next(4) == 0 { s.push_str(long[next(long.len())]); } else { s.push_str(alpha[next(alpha.len())]); }
        }
        run(&s);
    }
    println!("COUNT {}", n);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
