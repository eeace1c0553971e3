//! Monomorphic entry points into bardecoder. This crate is compiled, like bardecoder itself, with
//! the coverage callbacks that give the simulator its scheduling points, so that bardecoder's
//! generic code (the pipeline, the grayscale conversion) is instrumented as well. It adds no
//! behaviour of its own.
use anyhow::Error;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRInfo, QRLocation};
use bardecoder::util::Chomp;
use bardecoder::{Decoder, DecoderBuilder};
use std::rc::Rc;
use image::{DynamicImage, GenericImageView, GrayImage, Rgba, RgbaImage};

/// Where the pixels of a simulated frame come from.
pub trait Source {
    fn dims(&self) -> (u32, u32);
    fn px(&self, x: u32, y: u32) -> [u8; 4];
}

/// A frame whose every pixel read goes to the simulator.
pub struct SimFrame {
    pub src: Box<dyn Source>,
    /// where the frame lies in the picture that it is a part of
    pub at: (u32, u32),
}

impl GenericImageView for SimFrame {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.src.dims()
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        let (w, h) = self.src.dims();
        (self.at.0, self.at.1, w, h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        Rgba(self.src.px(x, y))
    }
}


pub enum Frame {
    Rgba(RgbaImage),
    Dyn(DynamicImage),
    Sim(SimFrame),
}

pub type Results = Vec<Result<(String, Option<QRInfo>), Error>>;

fn plain(v: Vec<Result<String, Error>>) -> Results {
    v.into_iter().map(|r| r.map(|t| (t, None))).collect()
}
fn info(v: Vec<Result<(String, QRInfo), Error>>) -> Results {
    v.into_iter().map(|r| r.map(|(t, i)| (t, Some(i)))).collect()
}

/// A long-lived set of default decoders, as an application would hold them.
pub struct Station {
    rgba: Decoder<RgbaImage, GrayImage, String>,
    rgba_info: Decoder<RgbaImage, GrayImage, (String, QRInfo)>,
    dynamic: Decoder<DynamicImage, GrayImage, String>,
    dynamic_info: Decoder<DynamicImage, GrayImage, (String, QRInfo)>,
    sim: Decoder<SimFrame, GrayImage, String>,
    sim_info: Decoder<SimFrame, GrayImage, (String, QRInfo)>,
    pub qr: QRDecoder,
    pub qr_info: QRDecoderWithInfo,
}

impl Station {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Station {
        Station {
            rgba: bardecoder::default_decoder(),
            rgba_info: bardecoder::default_decoder_with_info(),
            dynamic: bardecoder::default_decoder(),
            dynamic_info: bardecoder::default_decoder_with_info(),
            sim: bardecoder::default_decoder(),
            sim_info: bardecoder::default_decoder_with_info(),
            qr: QRDecoder::new(),
            qr_info: QRDecoderWithInfo::new(),
        }
    }

    pub fn decode(&self, frame: &Frame, with_info: bool) -> Results {
        match (frame, with_info) {
            (Frame::Rgba(f), false) => plain(self.rgba.decode(f)),
            (Frame::Rgba(f), true) => info(self.rgba_info.decode(f)),
            (Frame::Dyn(f), false) => plain(self.dynamic.decode(f)),
            (Frame::Dyn(f), true) => info(self.dynamic_info.decode(f)),
            (Frame::Sim(f), false) => plain(self.sim.decode(f)),
            (Frame::Sim(f), true) => info(self.sim_info.decode(f)),
        }
    }

    pub fn symbol(&self, pixels: Vec<u8>, version: u32) -> Result<String, QRError> {
        self.qr.decode(Ok(QRData::new(pixels, version)))
    }

    pub fn symbol_info(&self, pixels: Vec<u8>, version: u32) -> Result<(String, QRInfo), QRError> {
        self.qr_info.decode(Ok(QRData::new(pixels, version)))
    }
}

/// A decoder with the shipped components around someone else's `Detect` (locations known exactly).
pub struct Located {
    plain: Decoder<SimFrame, GrayImage, String>,
    info: Decoder<SimFrame, GrayImage, (String, QRInfo)>,
}

impl Located {
    pub fn new(a: Box<dyn Detect<GrayImage>>, b: Box<dyn Detect<GrayImage>>) -> Located {
        let mut p = bardecoder::default_builder();
        p.detect(a);
        let mut i = bardecoder::default_builder_with_info();
        i.detect(b);
        Located { plain: p.build(), info: i.build() }
    }
    pub fn decode(&self, f: &SimFrame, with_info: bool) -> Results {
        if with_info {
            info(self.info.decode(f))
        } else {
            plain(self.plain.decode(f))
        }
    }
}

/// A part of a picture, as the image crate crops it.
pub fn cropped(whole: RgbaImage, at: (u32, u32), size: (u32, u32), with_info: bool) -> Results {
    let part = image::SubImage::new(Rc::new(whole), at.0, at.1, size.0, size.1);
    if with_info {
        info(bardecoder::default_decoder_with_info().decode(&*part))
    } else {
        plain(bardecoder::default_decoder().decode(&*part))
    }
}

// ---- the shipped components inside of components of the user

/// Told before and after every call of a component.
pub trait Tap {
    fn tap(&self, component: &str, done: bool);
}

pub struct Watched<T> {
    inner: T,
    name: &'static str,
    tap: Rc<dyn Tap>,
}

impl<T> Watched<T> {
    fn around<R>(&self, f: impl FnOnce(&T) -> R) -> R {
        self.tap.tap(self.name, false);
        let r = f(&self.inner);
        self.tap.tap(self.name, true);
        r
    }
}

impl<T: Prepare<SimFrame, GrayImage>> Prepare<SimFrame, GrayImage> for Watched<T> {
    fn prepare(&self, i: &SimFrame) -> GrayImage {
        self.around(|c| c.prepare(i))
    }
}
impl<T: Detect<GrayImage>> Detect<GrayImage> for Watched<T> {
    fn detect(&self, i: &GrayImage) -> Vec<bardecoder::detect::Location> {
        self.around(|c| c.detect(i))
    }
}
impl<T: Extract<GrayImage, QRLocation, QRData, QRError>> Extract<GrayImage, QRLocation, QRData, QRError> for Watched<T> {
    fn extract(&self, i: &GrayImage, l: QRLocation) -> Result<QRData, QRError> {
        self.around(|c| c.extract(i, l))
    }
}
impl<R, T: Decode<QRData, R, QRError>> Decode<QRData, R, QRError> for Watched<T> {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<R, QRError> {
        self.around(|c| c.decode(d))
    }
}

pub fn wrapped(tap: impl Fn() -> Rc<dyn Tap>) -> Located {
    let mut p = bardecoder::default_builder();
    p.prepare(Box::new(Watched { inner: BlockedMean::new(5, 7), name: "prepare", tap: tap() }));
    p.detect(Box::new(Watched { inner: LineScan::new(), name: "detect", tap: tap() }));
    p.qr(Box::new(Watched { inner: QRExtractor::new(), name: "extract", tap: tap() }), Box::new(Watched { inner: QRDecoder::new(), name: "decode", tap: tap() }));
    let mut i = bardecoder::default_builder_with_info();
    i.prepare(Box::new(Watched { inner: BlockedMean::new(5, 7), name: "prepare", tap: tap() }));
    i.detect(Box::new(Watched { inner: LineScan::new(), name: "detect", tap: tap() }));
    i.qr(Box::new(Watched { inner: QRExtractor::new(), name: "extract", tap: tap() }), Box::new(Watched { inner: QRDecoderWithInfo::new(), name: "decode", tap: tap() }));
    Located { plain: p.build(), info: i.build() }
}

// ---- a pipeline made of scripted components

#[derive(Debug)]
pub struct Tok(pub u64);

pub type Pipe = Decoder<Tok, Tok, Tok>;

pub enum Part {
    Prepare(Box<dyn Prepare<Tok, Tok>>),
    Detect(Box<dyn Detect<Tok>>),
    Qr(
        Box<dyn Extract<Tok, QRLocation, QRData, QRError>>,
        Box<dyn Decode<QRData, Tok, QRError>>,
    ),
}

pub fn build_pipe(parts: Vec<Part>) -> Pipe {
    let mut b: DecoderBuilder<Tok, Tok, Tok> = DecoderBuilder::new();
    for p in parts {
        match p {
            Part::Prepare(x) => b.prepare(x),
            Part::Detect(x) => b.detect(x),
            Part::Qr(x, y) => b.qr(x, y),
        };
    }
    b.build()
}

pub fn pipe_decode(p: &Pipe, t: &Tok) -> Vec<Result<Tok, Error>> {
    p.decode(t)
}

/// Components of the user around a shipped `Decode`.
pub fn handed(
    p: Box<dyn Prepare<Tok, Tok>>,
    d: Box<dyn Detect<Tok>>,
    x: Box<dyn Extract<Tok, QRLocation, QRData, QRError>>,
    with_info: bool,
    rounds: u64,
) -> Vec<Results> {
    if with_info {
        let mut b: DecoderBuilder<Tok, Tok, (String, QRInfo)> = DecoderBuilder::new();
        b.prepare(p).detect(d).qr(x, Box::new(QRDecoderWithInfo::new()));
        let b = b.build();
        (0..rounds).map(|k| info(b.decode(&Tok(k)))).collect()
    } else {
        let mut b: DecoderBuilder<Tok, Tok, String> = DecoderBuilder::new();
        b.prepare(p).detect(d).qr(x, Box::new(QRDecoder::new()));
        let b = b.build();
        (0..rounds).map(|k| plain(b.decode(&Tok(k)))).collect()
    }
}

/// The shipped components one by one.
pub fn prepare(f: &SimFrame) -> GrayImage {
    BlockedMean::new(5, 7).prepare(f)
}
pub fn prepare_with(f: &SimFrame, block: u32, mean: u32) -> GrayImage {
    BlockedMean::new(block, mean).prepare(f)
}
pub fn detect(g: &GrayImage) -> Vec<bardecoder::detect::Location> {
    LineScan::new().detect(g)
}
pub fn extract(g: &GrayImage, l: QRLocation) -> Result<QRData, QRError> {
    QRExtractor::new().extract(g, l)
}

// ---- Chomp

pub struct Reader(Chomp);
impl Reader {
    pub fn new(v: Vec<u8>) -> Reader {
        Reader(Chomp::new(v))
    }
    pub fn chomp(&mut self, n: u8) -> Option<u8> {
        self.0.chomp(n)
    }
    pub fn chomp_or(&mut self, n: u8, tag: String) -> Result<u8, String> {
        self.0.chomp_or(n, tag)
    }
    pub fn chomp_or_u16(&mut self, n: u8, tag: String) -> Result<u16, String> {
        self.0.chomp_or_u16(n, tag)
    }
}

/// Used once by the simulator to learn the address of the log facade's level.
pub fn touch_log() {
    log::debug!("probe");
}
