//! Another build of the crate under test, driven through a pipe.
use crate::mon::{self, Out, Req};
use jpeg_decoder::{CodingProcess, ColorTransform, PixelFormat};
use std::io::{BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Peer {
    child: Child,
    inp: BufWriter<ChildStdin>,
    out: BufReader<ChildStdout>,
    dead: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Answer {
    /// class of the outcome, as `Out::class`
    pub class: String,
    pub info: Option<(u16, u16, u8, u8)>,
    pub pixels: Vec<u8>,
}

pub fn answer(d: &mon::Dec) -> Answer {
    Answer {
        class: d.out.class(),
        info: d.info.map(|i| {
            (
                i.width,
                i.height,
                match i.pixel_format {
                    PixelFormat::L8 => 0,
                    PixelFormat::L16 => 1,
                    PixelFormat::RGB24 => 2,
                    PixelFormat::CMYK32 => 3,
                },
                match i.coding_process {
                    CodingProcess::DctSequential => 0,
                    CodingProcess::DctProgressive => 1,
                    CodingProcess::Lossless => 2,
                },
            )
        }),
        pixels: if let Out::Ok(v) = &d.out { v.clone() } else { vec![] },
    }
}

pub const TRANSFORMS: [ColorTransform; 9] = [
    ColorTransform::None,
    ColorTransform::Unknown,
    ColorTransform::Grayscale,
    ColorTransform::RGB,
    ColorTransform::YCbCr,
    ColorTransform::CMYK,
    ColorTransform::YCCK,
    ColorTransform::JcsBgYcc,
    ColorTransform::JcsBgRgb,
];

impl Peer {
    /// `JV_PEER_<name>` names the executable.
    pub fn spawn(name: &str) -> Option<Peer> {
        Some(Peer::start(&std::env::var(format!("JV_PEER_{name}")).ok()?))
    }
    /// A new process of this build.
    pub fn fresh() -> Peer {
        Peer::start(std::env::current_exe().unwrap().to_str().unwrap())
    }
    fn start(p: &str) -> Peer {
        let mut child =
            Command::new(p).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("peer starts");
        let inp = BufWriter::new(child.stdin.take().unwrap());
        let out = BufReader::new(child.stdout.take().unwrap());
        Peer { child, inp, out, dead: false }
    }
    pub fn decode(&mut self, b: &[u8], q: &Req) -> Answer {
        self.decode_by(1, b, q)
    }
    /// Decoded by several threads of the process at the same time; the class tells when they disagree.
    pub fn decode_by(&mut self, threads: u8, b: &[u8], q: &Req) -> Answer {
        if self.dead {
            return Answer { class: "peer died".into(), info: None, pixels: vec![] };
        }
        match self.try_decode(threads, b, q) {
            Ok(a) => a,
            Err(_) => {
                self.dead = true;
                Answer { class: "peer died".into(), info: None, pixels: vec![] }
            }
        }
    }
    fn try_decode(&mut self, threads: u8, b: &[u8], q: &Req) -> std::io::Result<Answer> {
        let t = q.transform.map_or(255, |t| TRANSFORMS.iter().position(|x| *x == t).unwrap() as u8);
        let (has, sw, sh) = q.scale.map_or((0, 0, 0), |s| (1u8, s.0, s.1));
        let mut r = vec![t, has | threads << 1];
        r.extend_from_slice(&sw.to_le_bytes());
        r.extend_from_slice(&sh.to_le_bytes());
        r.extend_from_slice(&(q.limit.unwrap_or(usize::MAX) as u64).to_le_bytes());
        r.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.inp.write_all(&r)?;
        self.inp.write_all(b)?;
        self.inp.flush()?;
        let class = String::from_utf8(self.blob()?).unwrap();
        let i = self.blob()?;
        let info = if i.is_empty() {
            None
        } else {
            Some((u16::from_le_bytes([i[0], i[1]]), u16::from_le_bytes([i[2], i[3]]), i[4], i[5]))
        };
        let pixels = self.blob()?;
        Ok(Answer { class, info, pixels })
    }
    fn blob(&mut self) -> std::io::Result<Vec<u8>> {
        let mut n = [0; 4];
        self.out.read_exact(&mut n)?;
        let mut v = vec![0; u32::from_le_bytes(n) as usize];
        self.out.read_exact(&mut v)?;
        Ok(v)
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn serve() {
    let mut inp = BufReader::new(std::io::stdin().lock());
    let mut out = BufWriter::new(std::io::stdout().lock());
    loop {
        let mut h = [0u8; 18];
        if inp.read_exact(&mut h).is_err() {
            return;
        }
        let mut q = Req::default();
        if h[0] != 255 {
            q.transform = Some(TRANSFORMS[h[0] as usize]);
        }
        let threads = usize::from(h[1] >> 1);
        if h[1] & 1 == 1 {
            q.scale = Some((u16::from_le_bytes([h[2], h[3]]), u16::from_le_bytes([h[4], h[5]])));
        }
        let l = u64::from_le_bytes(h[6..14].try_into().unwrap());
        if l != u64::MAX {
            q.limit = Some(l as usize);
        }
        let n = u32::from_le_bytes(h[14..18].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        inp.read_exact(&mut b).unwrap();
        let a = if threads > 1 { together(threads, &b, &q) } else { answer(&mon::decode_from(&b[..], &q)) };
        let mut put = |x: &[u8]| {
            out.write_all(&(x.len() as u32).to_le_bytes()).unwrap();
            out.write_all(x).unwrap();
        };
        put(a.class.as_bytes());
        match a.info {
            None => put(&[]),
            Some((w, h, f, p)) => {
                let mut v = vec![];
                v.extend_from_slice(&w.to_le_bytes());
                v.extend_from_slice(&h.to_le_bytes());
                v.extend_from_slice(&[f, p]);
                put(&v)
            }
        }
        put(&a.pixels);
        out.flush().unwrap();
    }
}

/// The first decodes of a process, released at the same moment.
fn together(threads: usize, b: &[u8], q: &Req) -> Answer {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let ready = AtomicUsize::new(0);
    let all: Vec<Answer> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < threads {
                        std::thread::yield_now();
                    }
                    answer(&mon::decode_from(b, q))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let later = answer(&mon::decode_from(b, q));
    for a in &all {
        if *a != later {
            return a.clone();
        }
    }
    later
}
