//! P33: a release asset is downloaded completely, or the download fails.
use crate::disk::{under, Plan};
use crate::world::*;
use github_helpers::{Release, ReleaseAsset};
use mc::core::*;
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    Whole,
    Chunked,
    /// the length is not announced, the end of the connection is the end of the file
    Close,
    Status(u16),
    /// sends one more byte than it announces
    Long,
    Cut(usize),
    ChunkedCut(usize),
    NoAnswer,
    NotHttp,
    Redirect(u16),
    RedirectCut,
    RedirectMissing,
    RedirectLoop,
    Refused,
}
fn body(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 / 7) as u8).collect()
}
fn answers(site: &Site, r: Reply, data: &[u8]) -> bool {
    let head = |s: &str| format!("HTTP/1.1 {s}\r\nConnection: close\r\n").into_bytes();
    let full = |code: &str, data: &[u8], len: usize| [head(code), format!("Content-Length: {len}\r\n\r\n").into_bytes(), data.to_vec()].concat();
    let chunked = |data: &[u8], end: bool| {
        let mut v = head("200 OK");
        v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
        for c in data.chunks(1000) {
            v.extend(format!("{:x}\r\n", c.len()).bytes());
            v.extend(c);
            v.extend(b"\r\n");
        }
        if end {
            v.extend(b"0\r\n\r\n");
        }
        v
    };
    let to = |code: &str, name: &str| [head(code), format!("Location: {}\r\nContent-Length: 0\r\n\r\n", site.url(name)).into_bytes()].concat();
    let (raw, good) = match r {
        Reply::Whole => (full("200 OK", data, data.len()), true),
        Reply::Chunked => (chunked(data, true), true),
        Reply::Close => ([head("200 OK"), b"\r\n".to_vec(), data.to_vec()].concat(), true),
        Reply::Status(s) => (full(&format!("{s} X"), data, data.len()), false),
        Reply::Long => (full("200 OK", &[data, b"!"].concat(), data.len()), true),
        Reply::Cut(n) => (full("200 OK", &data[..data.len() - n.min(data.len())], data.len()), n == 0 || data.is_empty()),
        Reply::ChunkedCut(n) => (chunked(&data[..data.len() - n.min(data.len())], false), false),
        Reply::NoAnswer => (vec![], false),
        Reply::NotHttp => (b"hello".to_vec(), false),
        Reply::Redirect(s) => (to(&format!("{s} X"), "real"), true),
        Reply::RedirectCut => (to("302 Found", "cut"), data.is_empty()),
        Reply::RedirectMissing => (to("302 Found", "missing"), false),
        Reply::RedirectLoop => (to("302 Found", "asset"), false),
        Reply::Refused => (vec![], false),
    };
    site.set("real", Answer::Raw(full("200 OK", data, data.len())));
    site.set("cut", Answer::Raw(full("200 OK", &data[..data.len() / 2], data.len())));
    site.set("asset", Answer::Raw(raw));
    good
}
fn check(ctx: &Ctx, r: Reply, data: &[u8], fault: Option<Plan>, readonly: bool) -> Result<usize, String> {
    let s = Scratch::new("rel");
    let site = Site::new();
    let sent = answers(&site, r, data) && (!readonly || data.is_empty());
    let url = if r == Reply::Refused { "http://127.0.0.1:1/asset".to_string() } else { site.url("asset") };
    let asset = ReleaseAsset { name: "asset".into(), browser_download_url: url };
    let p = s.0.join("asset");
    fs::write(&p, b"").unwrap();
    let mut f = OpenOptions::new().read(true).write(!readonly).open(&p).unwrap();
    let (got, calls) = under(fault.unwrap_or(Plan::Count), || guard(|| asset.download(&mut f).map_err(|e| e.to_string())));
    ctx.trace();
    ctx.step(calls.len() as u64 + 1);
    // how much arrives at a time differs, and so does the number of writes
    let good = sent && !matches!(fault, Some(Plan::Fail(k, _)) if calls.len() > k);
    let got = got.map_err(|e| format!("panicked: {e}"))?;
    drop(f);
    let now = fs::read(&p).unwrap();
    match got {
        Ok(()) if !good => return Err(format!("success is reported; {} bytes of {}", now.len(), data.len())),
        Ok(()) if now != data => return Err(format!("success is reported, but the file is not the asset: {} bytes of {}", now.len(), data.len())),
        Ok(()) => ctx.outcome("downloaded"),
        Err(e) if good => return Err(format!("failed: {e}")),
        Err(_) => ctx.outcome("failure reported"),
    }
    Ok(calls.len())
}
pub fn run(ctx: &Ctx) {
    let mut sizes = vec![0, 1, 999, 1000, 8191, 8192, 8193, 70_000];
    if ctx.thorough() {
        sizes.extend([2, 100, 4096, 16384, 65536, 65537, 1_000_000, 5_000_000]);
    }
    let mut replies = vec![Reply::Whole, Reply::Chunked, Reply::Close, Reply::Long, Reply::NoAnswer, Reply::NotHttp, Reply::RedirectCut, Reply::RedirectMissing, Reply::RedirectLoop, Reply::Refused];
    replies.extend([1, 2, 500, 1000, 8192].map(Reply::Cut));
    replies.extend([0, 1, 1000].map(Reply::ChunkedCut));
    replies.extend([301, 302, 303, 307, 308].map(Reply::Redirect));
    replies.extend((400..=418).chain([422, 429, 451]).chain(500..=511).map(Reply::Status));
    let mut cases = vec![];
    for r in &replies {
        for n in &sizes {
            for ro in [false, true] {
                cases.push((*r, *n, ro));
            }
        }
    }
    par_for(cases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let (r, n, ro) = cases[i];
        ctx.state();
        let d = body(n);
        match check(ctx, r, &d, None, ro) {
            Err(e) => ctx.violation(&format!("{r:?}:{n}:{ro}"), e),
            // the disk fails at any write
            Ok(calls) if matches!(r, Reply::Whole | Reply::Chunked | Reply::Redirect(302)) && !ro => {
                for k in (0..calls).step_by(calls / 40 + 1) {
                    for p in [Plan::Fail(k, libc::ENOSPC), Plan::Fail(k, libc::EIO), Plan::Short(k)] {
                        ctx.state();
                        if let Err(m) = check(ctx, r, &d, Some(p), false) {
                            ctx.violation(&format!("{r:?}:{n}:{p:?}"), m);
                        }
                    }
                }
            }
            Ok(_) => {}
        }
    });
    // the list of assets
    for n in 0..5usize {
        for extra in 0..4 {
            ctx.state();
            ctx.trace();
            let assets: Vec<serde_json::Value> = (0..n)
                .map(|i| {
                    let mut a = serde_json::json!({"name": format!("a \"{i}\"ä"), "browser_download_url": format!("https://x/{i}?q=1&r=%20")});
                    if extra & 1 == 1 {
                        a["size"] = serde_json::json!(7);
                        a["uploader"] = serde_json::json!({"login": "x", "name": "y"});
                    }
                    a
                })
                .collect();
            let mut doc = serde_json::json!({"assets": assets});
            if extra & 2 == 2 {
                doc["name"] = serde_json::json!("v1");
                doc["tag_name"] = serde_json::Value::Null;
            }
            match serde_json::from_str::<Release>(&doc.to_string()) {
                Ok(r) if r.assets.len() == n && r.assets.iter().enumerate().all(|(i, a)| a.name == format!("a \"{i}\"ä") && a.browser_download_url == format!("https://x/{i}?q=1&r=%20")) => {}
                r => ctx.violation(&format!("release:{n}:{extra}"), format!("{doc} is read as {r:?}")),
            }
        }
    }
    ctx.bound(format!("{} replies x {} sizes, a file that cannot be written, an error at every write; lists of up to 4 assets", replies.len(), sizes.len()));
    ctx.assume("a loopback server; finding the latest release asks api.github.com and is not explored");
    ctx.sample(|| format!("{:?}", cases[cases.len() / 2]));
}
