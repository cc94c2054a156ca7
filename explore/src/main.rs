extern crate alloc;
#[macro_use]
mod rt;
mod vecx;
mod boxx;
mod more;
#[cfg(feature = "io")]
mod iox;
#[cfg(feature = "hash")]
mod hashx;
#[cfg(feature = "tree")]
mod mapx;
#[cfg(feature = "tree")]
mod setx;
use rt::*;
#[global_allocator]
static A: Alloc = Alloc;

fn run(p: &str, cx: &mut Ctx) {
    cx.own = matches!(p, "C02" | "C04" | "C06" | "C07" | "C16" | "C17");
    match p {
        "C01" => { vecx::beyond(cx); more::vectors(cx, "C01"); vecx::c01(cx) } "C02" => { more::vectors(cx, "C02"); vecx::c02(cx) }
        "C04" => { more::vectors(cx, "C04"); vecx::c04(cx) } "C05" => { more::reservations(cx); more::vectors(cx, "C05"); vecx::c05(cx) }
        "C03" => { more::vectors(cx, "C03"); vecx::c03(cx); boxx::boxes(cx);
            #[cfg(feature = "hash")] { hashx::absurd(cx); hashx::oom(cx); }
            cx.stretch(2); boxx::format(cx);
            #[cfg(feature = "io")] iox::io(cx);
            #[cfg(feature = "tree")] { cx.stretch(2); mapx::c16(cx); setx::c16(cx); } }
        "C06" => { more::vectors(cx, "C06"); vecx::c06(cx); boxx::boxes(cx);
            #[cfg(feature = "hash")] { cx.stretch(2); hashx::clone(cx); }
            #[cfg(feature = "tree")] { cx.stretch(2); more::types(cx, "C06"); more::tall_c06(cx); mapx::clone(cx); } }
        "C07" => boxx::boxes(cx),
        #[cfg(feature = "hash")]
        "C08" => { hashx::full(cx); hashx::large(cx); hashx::c08(cx) }
        #[cfg(feature = "io")]
        "C09" => iox::io(cx),
        "C10" => boxx::format(cx),
        #[cfg(feature = "tree")]
        "C11" => { more::types(cx, "C11"); more::tall_c11(cx); mapx::c11(cx) }
        #[cfg(feature = "tree")]
        "C12" => { more::types(cx, "C12"); more::tall_c12(cx); mapx::c12(cx) }
        #[cfg(feature = "tree")]
        "C13" => { more::types(cx, "C13"); setx::c13(cx); mapx::c13(cx) }
        #[cfg(feature = "tree")]
        "C14" => { more::types(cx, "C14"); more::tall_c14(cx); setx::c14(cx); mapx::c14(cx) }
        #[cfg(feature = "tree")]
        "C15" => { more::types(cx, "C15"); more::tall_c15(cx); setx::c15(cx); mapx::c15(cx) }
        #[cfg(feature = "tree")]
        "C16" => { setx::every(cx, "C16"); mapx::every(cx); more::types(cx, "C16"); more::tall_c16(cx); setx::c16(cx); mapx::c16(cx) }
        #[cfg(feature = "tree")]
        "C17" => { more::types(cx, "C17"); mapx::c17(cx) }
        #[cfg(feature = "tree")]
        "C18" => { setx::c18_large(cx); setx::c18(cx) }
        #[cfg(feature = "tree")]
        "C19" => { setx::every(cx, "C19"); more::types(cx, "C19"); more::tall_c19(cx); setx::c19(cx); mapx::c19(cx) }
        "C20" => {
            cx.case(|| "TryVec comparisons".into(), || { use fallible_collections::TryVec;
                for a in [&[][..], &[1u32], &[1, 2], &[2, 1], &[1, 2, 3]] { for b in [&[][..], &[1u32], &[1, 2], &[2, 1], &[1, 2, 3]] {
                    let (x, y): (TryVec<u32>, TryVec<u32>) = (a.to_vec().into(), { let mut v = Vec::with_capacity(9); v.extend_from_slice(b); v.into() });
                    ensure!((x == y) == (a == b) && (x == b.to_vec()) == (a == b) && (x == b) == (a == b), "{:?} against {:?}", a, b); ensure!(format!("{:?}", x) == format!("{:?}", a), "Debug"); } } Ok(()) });
            #[cfg(feature = "hash")] hashx::debug(cx);
            #[cfg(feature = "tree")] { more::types(cx, "C20"); setx::c20(cx); mapx::c20(cx); } }
        _ => { println!("NONE"); }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let p = a.get(1).cloned().unwrap_or_default();
    let mut cx = Ctx::new(opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), opt("--ms").and_then(|s| s.parse().ok()).unwrap_or(10000), opt("--only").and_then(|s| s.parse().ok()), a.iter().any(|x| x == "--trace"));
    cx.scale = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    run(&p, &mut cx);
    println!("EVALS {} {} {}", cx.evals, cx.distinct.min(cx.evals), cx.cut as u8);
    for s in &cx.samples { println!("SAMPLE {}", s); }
    for (i, d, m) in &cx.fails { println!("FAIL {}\t{}\t{}", i, d.replace(['\n', '\t'], " "), m.replace(['\n', '\t'], " ")); }
    std::process::exit(if cx.fails.is_empty() { 0 } else { 1 });
}
