use crate::sym::*;
use posidonius::*;

#[inline(never)]
pub fn axes(n: &str, lo: f64, hi: f64) -> Axes { Axes { x: real(&[n, "x"].concat(), lo, hi), y: real(&[n, "y"].concat(), lo, hi), z: real(&[n, "z"].concat(), lo, hi) } }
pub fn ax(x: f64, y: f64, z: f64) -> Axes { Axes { x, y, z } }
pub fn sub(a: Axes, b: Axes) -> Axes { ax(a.x - b.x, a.y - b.y, a.z - b.z) }
pub fn add(a: Axes, b: Axes) -> Axes { ax(a.x + b.x, a.y + b.y, a.z + b.z) }
pub fn mul(k: f64, a: Axes) -> Axes { ax(k * a.x, k * a.y, k * a.z) }
pub fn dot(a: Axes, b: Axes) -> f64 { a.x * b.x + a.y * b.y + a.z * b.z }
pub fn cross(a: Axes, b: Axes) -> Axes { ax(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x) }
#[inline(never)]
pub fn name(i: usize, s: &str) -> String { let mut o = String::from(s); o.push((b'0' + i as u8) as char); o }
#[inline(never)]
pub fn check_axes(n: &str, a: Axes, b: Axes, s: f64) {
    check_eq(&[n, ".x"].concat(), a.x, b.x, s);
    check_eq(&[n, ".y"].concat(), a.y, b.y, s);
    check_eq(&[n, ".z"].concat(), a.z, b.z, s);
}
pub fn no_effects() -> ConsiderEffects { ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false } }
