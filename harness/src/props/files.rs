//! C21, C22: records written and read back; sensor data files.
use crate::ds::{self, *};
use crate::ensure;
use crate::fw::*;
use crate::gen::micros;
use crate::props::dataset::same_time;
use image::{DynamicImage, GenericImageView, ImageFormat};
use perception_eval::dataset::nuscenes::error::NuScenesError;
use perception_eval::dataset::nuscenes::schema::*;
use perception_eval::dataset::nuscenes::{LoadedSampleData, NuScenes};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Read;

// ---------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Rec {
    pub kind: u8,
    pub toks: Vec<(u64, u64)>,
    /// for optional links and texts
    pub some: Vec<bool>,
    pub texts: Vec<String>,
    pub nums: Vec<f64>,
    pub counts: Vec<u64>,
    pub time: i64,
    pub pick: u8,
    /// spell tokens with capitals, enumerations by their other name
    pub alt: bool,
    pub date: (i32, u32, u32),
}

fn hex(t: &(u64, u64)) -> String {
    format!("{:016x}{:016x}", t.0, t.1)
}

/// Equal up to the precision of numbers (serde_json reads a time written with a fraction to a quarter of a microsecond).
fn same_json(a: &Value, b: &Value, key: &str) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(x), Some(y)) = (x.as_u64(), y.as_u64()) {
                return x == y;
            }
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            x == y || (x - y).abs() <= if key == "timestamp" { 0.5 } else { 1e-12 * x.abs().max(y.abs()) }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q, key)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same_json(p, q, k))),
        _ => a == b,
    }
}

fn trip<T: Serialize + DeserializeOwned + std::fmt::Debug>(read: &Value, want: &Value, check: impl Fn(&T) -> R) -> R {
    let text = serde_json::to_string(read).map_err(|e| format!("{HARNESS}{e}"))?;
    let r: T = serde_json::from_str(&text).map_err(|e| format!("reading {text} failed: {e}"))?;
    check(&r)?;
    let r1: T = serde_json::from_reader(text.as_bytes()).map_err(|e| format!("reading {text} failed: {e}"))?;
    ensure!(format!("{r1:?}") == format!("{r:?}"), "reading {text} gives {r:?} and {r1:?}");
    let out = serde_json::to_string(&r).map_err(|e| format!("writing {r:?} failed: {e}"))?;
    let v: Value = serde_json::from_str(&out).map_err(|e| format!("{r:?} is written as {out}: {e}"))?;
    ensure!(same_json(&v, want, ""), "{r:?} is written as {v}, instead of {want}");
    if let Some(us) = read.get("timestamp").and_then(Value::as_i64) {
        let text = out.split_once("\"timestamp\":").map(|(_, x)| x.split([',', '}']).next().unwrap_or_default().trim());
        let x: Option<f64> = text.and_then(|x| x.parse().ok());
        ensure!(x == Some(us as f64), "{us} us is written as {text:?}");
    }
    let r2: T = serde_json::from_str(&out).map_err(|e| format!("reading back {out} failed: {e}"))?;
    check(&r2)?;
    let v2 = serde_json::to_value(&r2).map_err(|e| format!("writing {r2:?} failed: {e}"))?;
    ensure!(same_json(&v2, want, ""), "read back, {r2:?} is written as {v2}, instead of {want}");
    // through another representation of JSON
    let r3: T = serde_json::from_value(v.clone()).map_err(|e| format!("reading back {v} failed: {e}"))?;
    check(&r3)
}

fn c21_records(c: &Rec, ctx: &mut Ctx) -> R {
    let t = |i: usize| hex(&c.toks[i % c.toks.len()]);
    let some = |i: usize| c.some[i % c.some.len()];
    let opt = |i: usize| if some(i) { t(i + 3) } else { String::new() };
    let s = |i: usize| c.texts[i % c.texts.len()].clone();
    let n = |i: usize| c.nums[i % c.nums.len()];
    let v3 = |i: usize| json!([n(i), n(i + 1), n(i + 2)]);
    let v4 = |i: usize| json!([n(i), n(i + 1), n(i + 2), n(i + 3)]);
    let k = |i: usize| c.counts[i % c.counts.len()] as usize;
    let time = if some(0) { json!(c.time) } else { json!(c.time as f64) };
    let p = c.pick as usize;
    let tk = |x: &LongToken, want: String, what: &str| -> R {
        ensure!(x.to_string() == want, "{what} is {x} instead of {want}");
        Ok(())
    };
    let ok = |x: &Option<LongToken>, i: usize, what: &str| -> R {
        let want = opt(i);
        ensure!(x.as_ref().map(|x| x.to_string()).unwrap_or_default() == want, "{what} is {x:?} instead of {want:?}");
        Ok(())
    };
    // Read from a whole number, the time is exact; from 1e15-sized fractions it is up to the JSON parser.
    let first = std::cell::Cell::new(some(0));
    let at = |x: &chrono::NaiveDateTime| -> R {
        let exact = first.replace(false);
        let off = (*x - micros(c.time)).num_nanoseconds().unwrap_or(i64::MAX).abs();
        ensure!(same_time(x, c.time) || !exact && off < 1_000, "time {x} instead of {} us", c.time);
        Ok(())
    };
    // The same record as it may be spelled in a file.
    let spell = |v: &Value| -> Value {
        if !c.alt {
            return v.clone();
        }
        let mut v = v.clone();
        if let Some(o) = v.as_object_mut() {
            for (key, x) in o.iter_mut() {
                let up = |x: &mut Value| {
                    if let Some(s) = x.as_str() {
                        *x = json!(s.to_ascii_uppercase());
                    }
                };
                if key.contains("token") && key != "visibility_token" || key == "prev" || key == "next" {
                    up(x);
                    if let Some(l) = x.as_array_mut() {
                        l.iter_mut().for_each(up);
                    }
                }
                let other = match x.as_str() {
                    Some("bin") if key == "fileformat" => "pcd",
                    Some("jpeg") if key == "fileformat" => "jpg",
                    Some("LIDAR_TOP") if key == "channel" => "LIDAR_CONCAT",
                    Some("v0-40") if key == "level" => "none",
                    Some("v40-60") if key == "level" => "partial",
                    Some("v60-80") if key == "level" => "most",
                    Some("v80-100") if key == "level" => "full",
                    _ => continue,
                };
                *x = json!(other);
            }
        }
        v
    };
    ctx.class(TABLES[c.kind as usize % 13]);
    ctx.nontrivial(c.kind % 13 > 2 || some(0));
    match TABLES[c.kind as usize % 13] {
        "attribute" => {
            let v = json!({"token": t(0), "description": s(0), "name": s(1)});
            trip::<Attribute>(&spell(&v), &v, |r| {
                ensure!(r.description == s(0) && r.name == s(1), "{r:?}");
                tk(&r.token, t(0), "token")
            })
        }
        "category" => {
            let v = json!({"token": t(0), "description": s(0), "name": s(1)});
            trip::<Category>(&spell(&v), &v, |r| {
                ensure!(r.description == s(0) && r.name == s(1), "{r:?}");
                tk(&r.token, t(0), "token")
            })
        }
        "calibrated_sensor" => {
            let intr = if some(1) { json!([v3(0), v3(3), v3(6)]) } else { json!([]) };
            let v = json!({"token": t(0), "sensor_token": t(1), "rotation": v4(2), "camera_intrinsic": intr, "translation": v3(5)});
            trip::<CalibratedSensor>(&spell(&v), &v, |r| {
                ensure!(r.camera_intrinsic.is_some() == some(1), "{r:?}");
                if let Some(m) = &r.camera_intrinsic {
                    ensure!((0..9).all(|i| (m[i / 3][i % 3] - n(i)).abs() <= 1e-12 * n(i).abs()), "{r:?}");
                }
                tk(&r.token, t(0), "token")?;
                tk(&r.sensor_token, t(1), "sensor_token")
            })
        }
        "ego_pose" => {
            let v = json!({"token": t(0), "timestamp": time, "rotation": v4(2), "translation": v3(5)});
            trip::<EgoPose>(&spell(&v), &v, |r| {
                at(&r.timestamp)?;
                tk(&r.token, t(0), "token")
            })
        }
        "instance" => {
            let v = json!({"token": t(0), "nbr_annotations": k(0), "category_token": t(1), "first_annotation_token": t(2), "last_annotation_token": t(3)});
            trip::<Instance>(&spell(&v), &v, |r| {
                ensure!(r.nbr_annotations == k(0), "{r:?}");
                tk(&r.token, t(0), "token")?;
                tk(&r.category_token, t(1), "category_token")?;
                tk(&r.first_annotation_token, t(2), "first_annotation_token")?;
                tk(&r.last_annotation_token, t(3), "last_annotation_token")
            })
        }
        "log" => {
            let date = some(0).then(|| format!("{:04}-{:02}-{:02}", c.date.0, c.date.1, c.date.2));
            let file = if some(1) { s(2) } else { String::new() };
            let v = json!({"token": t(0), "date_captured": date, "location": s(0), "vehicle": s(1), "logfile": file});
            trip::<Log>(&spell(&v), &v, |r| {
                ensure!(r.date_captured.map(|d| d.format("%Y-%m-%d").to_string()) == date, "{r:?}");
                ensure!(r.logfile.as_ref().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default() == file && r.logfile.is_some() != file.is_empty(), "log file of {r:?} instead of {file:?}");
                ensure!(r.location == s(0) && r.vehicle == s(1), "{r:?}");
                tk(&r.token, t(0), "token")
            })
        }
        "map" => {
            let logs: Vec<String> = (0..p % 4).map(t).collect();
            let v = json!({"token": t(3), "log_tokens": logs, "filename": s(0), "category": s(1)});
            trip::<Map>(&spell(&v), &v, |r| {
                ensure!(r.token.to_string() == t(3), "{r:?}");
                ensure!(r.filename.to_string_lossy() == s(0) && r.category == s(1) && r.log_tokens.iter().map(|l| l.to_string()).collect::<Vec<_>>() == logs, "{r:?}");
                Ok(())
            })
        }
        "sample" => {
            let v = json!({"token": t(0), "next": opt(0), "prev": opt(1), "scene_token": t(1), "timestamp": time});
            trip::<Sample>(&spell(&v), &v, |r| {
                at(&r.timestamp)?;
                ok(&r.next, 0, "next")?;
                ok(&r.prev, 1, "prev")?;
                tk(&r.token, t(0), "token")?;
                tk(&r.scene_token, t(1), "scene_token")
            })
        }
        "sample_annotation" => {
            let attrs: Vec<String> = (0..p % 4).map(t).collect();
            let vis = if some(2) { s(0) } else { String::new() };
            let v = json!({"token": t(0), "num_lidar_pts": k(0), "num_radar_pts": k(1), "size": v3(0), "rotation": v4(3), "translation": v3(7), "sample_token": t(1),
                "instance_token": t(2), "attribute_tokens": attrs, "visibility_token": vis, "prev": opt(1), "next": opt(0)});
            trip::<SampleAnnotation>(&spell(&v), &v, |r| {
                ensure!(r.visibility_token == (!vis.is_empty()).then(|| vis.clone()), "visibility of {r:?} instead of {vis:?}");
                ensure!(r.num_lidar_pts == k(0) && r.num_radar_pts == k(1) && r.attribute_tokens.iter().map(|l| l.to_string()).collect::<Vec<_>>() == attrs, "{r:?}");
                ok(&r.next, 0, "next")?;
                ok(&r.prev, 1, "prev")?;
                tk(&r.token, t(0), "token")?;
                tk(&r.sample_token, t(1), "sample_token")?;
                tk(&r.instance_token, t(2), "instance_token")
            })
        }
        "sample_data" => {
            let v = json!({"token": t(0), "fileformat": FORMATS[p % 3], "is_key_frame": some(2), "filename": s(0), "timestamp": time, "sample_token": t(1), "ego_pose_token": t(2),
                "calibrated_sensor_token": t(3), "prev": opt(1), "next": opt(0)});
            trip::<SampleData>(&spell(&v), &v, |r| {
                at(&r.timestamp)?;
                ensure!(r.is_key_frame == some(2) && r.filename.to_string_lossy() == s(0), "{r:?}");
                ensure!(r.fileformat == [FileFormat::Bin, FileFormat::Jpeg, FileFormat::Png][p % 3], "{r:?}");
                ok(&r.next, 0, "next")?;
                ok(&r.prev, 1, "prev")?;
                tk(&r.sample_token, t(1), "sample_token")?;
                tk(&r.ego_pose_token, t(2), "ego_pose_token")?;
                tk(&r.calibrated_sensor_token, t(3), "calibrated_sensor_token")
            })
        }
        "scene" => {
            let v = json!({"token": t(0), "name": s(0), "description": s(1), "log_token": t(1), "nbr_samples": k(0), "first_sample_token": t(2), "last_sample_token": t(3)});
            trip::<Scene>(&spell(&v), &v, |r| {
                ensure!(r.name == s(0) && r.description == s(1) && r.nbr_samples == k(0), "{r:?}");
                tk(&r.log_token, t(1), "log_token")?;
                tk(&r.first_sample_token, t(2), "first_sample_token")?;
                tk(&r.last_sample_token, t(3), "last_sample_token")
            })
        }
        "sensor" => {
            let v = json!({"token": t(0), "modality": MODALITIES[p % 3], "channel": CHANNELS[p % 15]});
            trip::<Sensor>(&spell(&v), &v, |r| {
                ensure!(r.modality == [Modality::Camera, Modality::Lidar, Modality::Radar][p % 3] && crate::props::dataset::channel(&r.channel) == p % 15, "{r:?}");
                tk(&r.token, t(0), "token")
            })
        }
        _ => {
            let v = json!({"token": s(0), "level": LEVELS[p % 4], "description": s(1)});
            // its token is plain text
            let mut read = spell(&v);
            read["token"] = v["token"].clone();
            trip::<Visibility>(&read, &v, |r| {
                ensure!(r.token == s(0) && r.description == s(1) && crate::props::dataset::level(&r.level) == p % 4, "{r:?}");
                Ok(())
            })
        }
    }
}

fn c21_tokens(text: &String, ctx: &mut Ctx) -> R {
    let valid = text.len() == 32 && text.bytes().all(|b| b.is_ascii_hexdigit());
    let long = LongToken::try_from(text.as_str());
    let short = ShortToken::try_from(text.as_str());
    ensure!(long.is_ok() == valid && short.is_ok() == valid, "token {text:?} parses as {long:?} and {short:?}");
    let js = Value::String(text.clone());
    let (jl, js) = (serde_json::from_value::<LongToken>(js.clone()), serde_json::from_value::<ShortToken>(js));
    ensure!(jl.is_ok() == valid && js.is_ok() == valid, "token {text:?} is read as {jl:?} and {js:?}");
    if let (Ok(l), Ok(s), Ok(jl), Ok(js)) = (long, short, jl, js) {
        let low = text.to_ascii_lowercase();
        ensure!(l.to_string() == low && s.to_string() == low && l == jl && s == js, "token {text:?} prints as {l} and {s}");
        ensure!(LongToken::try_from(low.as_str()).is_ok_and(|x| x == l), "token {text:?} differs from its lower-case text");
    }
    ctx.class(if valid { "valid" } else { "invalid" });
    ctx.nontrivial(valid || text.len().abs_diff(32) < 3);
    Ok(())
}

/// Tokens of one digit.
fn plain_token(k: usize) -> (u64, u64) {
    let x = [0, u64::MAX, 0x1111_1111_1111_1111, 0xaaaa_aaaa_aaaa_aaaa, 0x8888_8888_8888_8888, 1 << 63][k % 6];
    (x, x)
}
pub fn c21s() -> Vec<Sub> {
    let text = || prop_oneof![2 => "[a-zA-Z0-9 ._/-]{0,12}", 1 => "\\PC{0,8}", 1 => any::<String>().prop_map(|s| s.chars().take(6).collect()), 1 => Just(String::new())];
    let number = || prop_oneof![3 => -1000.0..1000.0f64, 1 => -1e9..1e9f64, 1 => Just(0.0), 1 => (-8i32..8).prop_map(|i| i as f64), 1 => -1e-6..1e-6f64];
    vec![
        sub(
            "records",
            60_000,
            12,
            8,
            move || {
                (
                    (0u8..13, proptest::collection::vec(prop_oneof![8 => any::<(u64, u64)>(), 1 => (0usize..6).prop_map(plain_token), 1 => (0u64..300).prop_map(|x| (0, x))], 5), proptest::collection::vec(any::<bool>(), 3), proptest::collection::vec(text(), 3)),
                    (
                        proptest::collection::vec(number(), 11),
                        proptest::collection::vec(prop_oneof![0u64..100, any::<u32>().prop_map(|x| x as u64)], 2),
                        prop_oneof![4 => 1_000_000_000_000_000i64..2_500_000_000_000_000, 1 => 0i64..4_000_000_000_000_000, 1 => 0i64..10_000_000],
                    ),
                    (any::<u8>(), any::<bool>(), (1900i32..2200, 1u32..13, 1u32..29)),
                )
                    .prop_map(|((kind, toks, some, texts), (nums, counts, time), (pick, alt, date))| Rec { kind, toks, some, texts, nums, counts, time, pick, alt, date })
            },
            c21_records,
        ),
        sub(
            "tokens",
            40_000,
            12,
            8,
            || {
                prop_oneof![
                    3 => "[0-9a-f]{32}",
                    1 => ("[0-9a-fA-F]{1,4}", 1usize..4).prop_map(|(s, n)| s.repeat(32 / n)).prop_map(|s| s[..s.len().min(32)].to_string()),
                    1 => "[0-9a-fA-F]".prop_map(|s| s.repeat(32)),
                    2 => "[0-9a-fA-F]{32}",
                    2 => "[0-9a-f]{28,36}",
                    1 => "[0-9a-g]{32}",
                    1 => "[0-9a-f]{15}[ xG\u{e9}][0-9a-f]{16}",
                    1 => "[0-9a-f]{64}",
                    1 => "[0-9a-f]{30}\\PC{1,2}",
                    1 => "\\PC{0,40}",
                ]
            },
            c21_tokens,
        ),
    ]
}

// ---------------------------------------------------------------- C22

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Content {
    /// bits of the values of the points
    Points(Vec<[u32; 5]>),
    Bytes(Vec<u8>),
    Image { w: u8, h: u8, depth: u8, seed: u64 },
    /// of the size a camera takes
    Photo { w: u16, h: u16, depth: u8, seed: u64 },
    BadImage { w: u8, h: u8, seed: u64, cut: u16, flips: Vec<(u16, u8)> },
    /// a large file of pseudo-random bytes
    Large { len: u32, seed: u64 },
    Missing,
    Directory,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Files {
    pub ds: Ds,
    pub files: Vec<Content>,
}

fn picture(w: u8, h: u8, depth: u8, seed: u64) -> DynamicImage {
    photo(w as u32 % 20 + 1, h as u32 % 20 + 1, depth, seed)
}
fn photo(w: u32, h: u32, depth: u8, seed: u64) -> DynamicImage {
    let mut x = seed | 1;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 24) as u8
    };
    let mut bytes = |n: u32| (0..w * h * n).map(|_| rnd()).collect::<Vec<u8>>();
    let wide = |b: Vec<u8>| b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<u16>>();
    match depth % 7 {
        0 => image::RgbImage::from_raw(w, h, bytes(3)).map(DynamicImage::ImageRgb8),
        1 => image::GrayImage::from_raw(w, h, bytes(1)).map(DynamicImage::ImageLuma8),
        2 => image::RgbaImage::from_raw(w, h, bytes(4)).map(DynamicImage::ImageRgba8),
        3 => image::GrayAlphaImage::from_raw(w, h, bytes(2)).map(DynamicImage::ImageLumaA8),
        4 => image::ImageBuffer::from_raw(w, h, wide(bytes(2))).map(DynamicImage::ImageLuma16),
        5 => image::ImageBuffer::from_raw(w, h, wide(bytes(6))).map(DynamicImage::ImageRgb16),
        _ => image::ImageBuffer::from_raw(w, h, wide(bytes(8))).map(DynamicImage::ImageRgba16),
    }
    .expect("image")
}
fn noise(len: u32, seed: u64) -> Vec<u8> {
    let mut x = seed | 1;
    let mut out = Vec::with_capacity(len as usize + 8);
    while out.len() < len as usize {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(len as usize);
    out
}
fn encode(i: &DynamicImage, f: ImageFormat) -> Result<Vec<u8>, String> {
    let mut out = std::io::Cursor::new(Vec::new());
    i.write_to(&mut out, f).map_err(|e| format!("{HARNESS}{e}"))?;
    Ok(out.into_inner())
}

fn c22_files(c: &Files, ctx: &mut Ctx) -> R {
    let r = c.ds.resolve();
    let dir = ds::fresh_dir("c22").join("data");
    write_tables(&dir, &c.ds.tables(&r));
    let mut bytes: Vec<Option<Vec<u8>>> = Vec::new();
    let mut kinds: Vec<&Content> = Vec::new();
    let missing = Content::Missing;
    for (i, sd) in r.sds.iter().enumerate() {
        let c = c.files.get(i).unwrap_or(&missing);
        let path = dir.join(&sd.filename);
        std::fs::create_dir_all(path.parent().unwrap_or(&dir)).map_err(|e| format!("{HARNESS}{e}"))?;
        // PNG files may hold images of any kind; JPEG files colours or grey.
        let img = |w, h, depth: u8, seed| match sd.fmt {
            2 => encode(&picture(w, h, depth, seed), ImageFormat::Png),
            _ => encode(&picture(w, h, depth % 2, seed), ImageFormat::Jpeg),
        };
        let b = match c {
            Content::Points(p) => Some(p.iter().flatten().flat_map(|b| b.to_le_bytes()).collect()),
            Content::Bytes(b) => Some(b.clone()),
            Content::Image { w, h, depth, seed } => Some(img(*w, *h, *depth, *seed)?),
            Content::Photo { w, h, depth, seed } => Some(match sd.fmt {
                2 => encode(&photo(*w as u32, *h as u32, *depth, *seed), ImageFormat::Png)?,
                _ => encode(&photo(*w as u32, *h as u32, *depth % 2, *seed), ImageFormat::Jpeg)?,
            }),
            Content::BadImage { w, h, seed, cut, flips } => {
                let mut b = img(*w, *h, 0, *seed)?;
                for (at, x) in flips {
                    let n = b.len();
                    b[*at as usize % n] ^= x;
                }
                let n = b.len();
                if *cut > 0 {
                    b.truncate(n - *cut as usize % n);
                }
                Some(b)
            }
            Content::Large { len, seed } => Some(noise(*len, *seed)),
            Content::Missing => None,
            Content::Directory => {
                std::fs::create_dir_all(&path).map_err(|e| format!("{HARNESS}{e}"))?;
                None
            }
        };
        if let Some(b) = &b {
            std::fs::write(&path, b).map_err(|e| format!("{HARNESS}{e}"))?;
        }
        bytes.push(b);
        kinds.push(c);
    }
    let nu = NuScenes::load(VERSION, &dir).map_err(|e| format!("loading a consistent dataset failed: {e}"))?;
    for sd in nu.sample_data_iter() {
        let i = (0..r.sds.len()).find(|i| c.ds.token("sample_data", *i) == sd.token.to_string()).ok_or("unknown sensor data")?;
        let name = &r.sds[i].filename;
        let raw = guard("load_raw", || sd.load_raw())?;
        let opened = guard("open", || sd.open())?;
        let loaded = guard("load", || sd.load())?;
        let Some(b) = &bytes[i] else {
            ensure!(raw.is_err() && loaded.is_err(), "{name} is missing, but loads as {raw:?} and {loaded:?}");
            ensure!(opened.is_err() || matches!(kinds[i], Content::Directory), "{name} is missing, but opens");
            ctx.class("missing");
            continue;
        };
        match raw {
            Ok(got) => ensure!(got == *b, "{name}: raw bytes differ: {} bytes instead of {}", got.len(), b.len()),
            Err(e) => return Err(format!("{name}: loading the raw bytes failed: {e}")),
        }
        let mut got = Vec::new();
        opened.and_then(|mut f| f.read_to_end(&mut got)).map_err(|e| format!("{name}: opening failed: {e}"))?;
        ensure!(got == *b, "{name}: the opened file has other bytes");
        if r.sds[i].fmt == 0 {
            let whole = !b.is_empty() && b.len() % 20 == 0;
            match loaded {
                Ok(LoadedSampleData::PointCloud(m)) => {
                    ensure!(whole, "{name} of {} bytes loads as {} points", b.len(), m.nrows());
                    ensure!(m.nrows() == b.len() / 20 && m.ncols() == 5, "{name} of {} bytes loads as a {}x{} matrix", b.len(), m.nrows(), m.ncols());
                    for p in 0..m.nrows() {
                        for k in 0..5 {
                            let at = (p * 5 + k) * 4;
                            let want = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
                            ensure!(m[(p, k)].to_bits() == want, "{name}: value {k} of point {p} is {} instead of {}", m[(p, k)], f32::from_bits(want));
                        }
                    }
                    ctx.class("point cloud");
                    ctx.nontrivial(m.nrows() > 1);
                }
                Ok(LoadedSampleData::Image(_)) => return Err(format!("{name} loads as an image")),
                Err(e) => {
                    ensure!(!whole, "{name} of {} bytes is rejected: {e}", b.len());
                    ensure!(matches!(e, NuScenesError::CorruptedFile(_)), "{name} of {} bytes is rejected with {e:?}", b.len());
                    ctx.class(if b.is_empty() { "empty point cloud" } else { "partial point cloud" });
                }
            }
        } else {
            match (&kinds[i], loaded) {
                (Content::Image { depth, seed, .. } | Content::Photo { depth, seed, .. }, Ok(LoadedSampleData::Image(got))) => {
                    let (w, h) = match &kinds[i] {
                        Content::Photo { w, h, .. } => (*w as u32, *h as u32),
                        Content::Image { w, h, .. } => (*w as u32 % 20 + 1, *h as u32 % 20 + 1),
                        _ => (1, 1),
                    };
                    let want = if r.sds[i].fmt == 2 { photo(w, h, *depth, *seed) } else { image::load_from_memory_with_format(b, ImageFormat::Jpeg).map_err(|e| format!("{HARNESS}{e}"))? };
                    ensure!(got.dimensions() == want.dimensions() && got.color() == want.color(), "{name} loads as {:?} {:?} instead of {:?} {:?}", got.dimensions(), got.color(), want.dimensions(), want.color());
                    ensure!(got.as_bytes() == want.as_bytes(), "{name}: pixels differ");
                    ctx.class(if r.sds[i].fmt == 2 { "png" } else { "jpeg" });
                    ctx.nontrivial(got.width() > 1 && got.height() > 1);
                }
                (Content::Image { .. } | Content::Photo { .. }, Ok(_)) => return Err(format!("{name} does not load as an image")),
                (Content::Image { .. } | Content::Photo { .. }, Err(e)) => return Err(format!("{name} is rejected: {e}")),
                (Content::Bytes(_) | Content::Points(_) | Content::Large { .. }, Ok(_)) => return Err(format!("{name} loads, but is no image")),
                (_, Ok(LoadedSampleData::PointCloud(_))) => return Err(format!("{name} loads as a point cloud")),
                _ => ctx.class("bad image"),
            }
        }
    }
    Ok(())
}

pub fn c22s() -> Vec<Sub> {
    let o = DsOpts { scenes: 1, samples: 2, instances: 1, anns: 1, distinct: false, some: true, sds: 3, wide: false };
    let value = || {
        prop_oneof![
            6 => (-200.0f32..200.0).prop_map(f32::to_bits),
            1 => any::<u32>(),
            1 => prop_oneof![Just(f32::NAN), Just(f32::INFINITY), Just(-0.0f32), Just(f32::MIN_POSITIVE)].prop_map(f32::to_bits),
        ]
    };
    // points of zeros, of one value, and any
    let point = move || {
        prop_oneof![
            8 => proptest::array::uniform5(value()),
            1 => Just([0u32; 5]),
            1 => value().prop_map(|v| [v; 5]),
            1 => (value(), 0usize..5).prop_map(|(v, k)| { let mut p = [0; 5]; p[k] = v; p }),
        ]
    };
    let points = move |n: usize| proptest::collection::vec(point(), 0..n).prop_map(Content::Points);
    let content = move || {
        prop_oneof![
            8 => points(12),
            1 => points(400),
            2 => proptest::collection::vec(any::<u8>(), 0..130).prop_map(Content::Bytes),
            1 => (1usize..7, 1usize..20).prop_map(|(n, k)| Content::Bytes((0..n * 20 + k).map(|i| i as u8).collect())),
            8 => (any::<u8>(), any::<u8>(), 0u8..7, any::<u64>()).prop_map(|(w, h, depth, seed)| Content::Image { w, h, depth, seed }),
            2 => (any::<u8>(), any::<u8>(), any::<u64>(), prop_oneof![Just(0u16), any::<u16>()], proptest::collection::vec((any::<u16>(), 1u8..=255), 0..3))
                .prop_map(|(w, h, seed, cut, flips)| Content::BadImage { w, h, seed, cut, flips }),
            1 => Just(Content::Missing),
            1 => Just(Content::Directory),
        ]
    };
    // around the sizes of buffers
    let large = || {
        let len = prop_oneof![
            2 => (12u32..24, -40i64..41).prop_map(|(b, d)| ((1i64 << b) + d) as u32),
            2 => (1u32..200_000).prop_map(|n| n * 20),
            1 => 0u32..6_000_000,
            2 => (12u32..24, -2i64..3).prop_map(|(b, d)| (((1i64 << b) / 20 + d) * 20) as u32),
        ];
        prop_oneof![
            4 => (len, any::<u64>()).prop_map(|(len, seed)| Content::Large { len, seed }),
            1 => (prop_oneof![Just(256u16), Just(800), 1u16..1100, 1100u16..5000], prop_oneof![Just(257u16), Just(600), 1u16..1100], 0u8..7, any::<u64>())
                .prop_map(|(w, h, depth, seed)| Content::Photo { w, h: if w > 1100 { h % 40 + 1 } else { h }, depth, seed }),
            1 => (1u16..40, 1100u16..5000, 0u8..7, any::<u64>()).prop_map(|(w, h, depth, seed)| Content::Photo { w, h, depth, seed }),
        ]
    };
    vec![
        sub("files", 4_000, 12, 8, move || (ds::ds(o), proptest::collection::vec(content(), 6)).prop_map(|(ds, files)| Files { ds, files }), c22_files),
        sub("large", 200, 12, 8, move || (ds::ds(o), proptest::collection::vec(large(), 6)).prop_map(|(ds, files)| Files { ds, files }), c22_files),
    ]
}
