//! io adapters and io::Write (C09, part of C03).
use crate::rt::*;
use fallible_collections::*;
use std::io::{self, Read, Write};

// ------------------------------------------------------------------------------------ C09
struct Src { data: Vec<u8>, pos: usize, chunk: usize, err_at: Option<usize>, interrupt: usize, calls: usize, max_asked: usize }
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1; self.max_asked = self.max_asked.max(buf.len());
        if self.interrupt > 0 && self.calls % 2 == 1 { self.interrupt -= 1; return Err(io::ErrorKind::Interrupted.into()); }
        if let Some(e) = self.err_at { if self.pos >= e { return Err(io::ErrorKind::ConnectionReset.into()); } }
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        if let Some(e) = self.err_at { n = n.min(e - self.pos); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn source(n: usize, chunk: usize, err: Option<usize>, intr: usize) -> Src { Src { data: (0..n).map(|i| (i * 13 + 1) as u8).collect(), pos: 0, chunk, err_at: err, interrupt: intr, calls: 0, max_asked: 0 } }
pub fn io(cx: &mut Ctx) {
    for avail in [0usize, 1, 2, 5, 31, 32, 33, 70, 200] { for limit in [0usize, 1, 2, 4, 5, 6, 31, 32, 33, 34, 64, 69, 70, 71, 150] { for pre in [0usize, 3, 40] { for chunk in [1usize, 3, 1000] {
      for (err, intr, af) in [(None, 0, -1i64), (None, 2, -1), (Some(0), 0, -1), (Some(3), 0, -1), (Some(33), 1, -1), (None, 0, 0)] { for via in 0..3 {
        if via == 2 && pre != 0 { continue; }
        cx.distinct += 1;
        cx.case(|| format!("read limit {} from {} bytes in chunks of {} into {} bytes via {} (error at {:?}, {} interruptions, allocation {})", limit, avail, chunk, pre, ["try_read_up_to", "try_read_to_end", "read_into_try_vec"][via], err, intr, af), || {
            let mut s = source(avail, chunk, err, intr);
            let old: Vec<u8> = (0..pre).map(|i| 200u8.wrapping_add(i as u8)).collect();
            let mut buf: TryVec<u8> = TryVec::from(old.clone());
            let mut left_limit = None;
            let b = allocs();
            let r = with_alloc_fail(af, || match via {
                0 => try_read_up_to(&mut s, limit as u64, &mut buf),
                1 => { let mut t = (&mut s).take(limit as u64); let r = t.try_read_to_end(&mut buf); left_limit = Some(t.limit() as usize); r }
                _ => (&mut s).take(limit as u64).read_into_try_vec().map(|v| { let n = v.len(); buf = v; n }),
            });
            let used = allocs() - b;
            let n = limit.min(avail);
            match r {
                Ok(k) => { ensure!(k == n, "returned {} instead of {}", k, n); let mut w = old.clone(); w.extend(&s.data[..n]); ensure!(&buf[..] == &w[..], "buffer {:?} instead of {:?}", buf, w);
                    ensure!(s.pos == n, "consumed {} bytes for {}", s.pos, n); ensure!(err.map_or(true, |e| e >= n), "a read error was swallowed");
                    ensure!(used <= 1, "{} allocation requests", used);
                    if let Some(l) = left_limit { ensure!(l == limit - n, "limit left {} instead of {}", l, limit - n); } }
                Err(_) => { ensure!(af >= 0 || err.map_or(false, |e| e <= n), "failed without a reason"); ensure!(buf.len() >= pre && buf[..pre] == old[..], "old content damaged");
                    if via != 2 { ensure!(buf[pre..] == s.data[..buf.len() - pre] && buf.len() - pre <= s.pos, "buffer is not a prefix of what was read"); }
                    if af >= 0 { ensure!(s.pos == 0 && s.calls == 0 && buf.len() == pre, "read although the space could not be reserved"); } }
            }
            Ok(())
        });
      } }
    } } } }
    for pre in [0usize, 5] { cx.distinct += 1; cx.case(|| format!("write! after {} bytes", pre), || { let mut t = TryVec::from(vec![b'x'; pre]); write!(t, "{}-{:?}", 1234, "ab").map_err(|_| "failed")?; writeln!(t).map_err(|_| "failed")?; ensure!(&t[pre..] == b"1234-\"ab\"\n" as &[u8] && t[..pre].iter().all(|b| *b == b'x'), "{:?}", t); Ok(()) }); }
    for limit in [u64::MAX, u64::MAX / 2, 1 << 62, 1 << 40] { for via in 0..3 { for pre in [0usize, 4] {
        cx.distinct += 1;
        cx.case(|| format!("absurd limit {} via {} into {} bytes", limit, via, pre), || {
            let mut s = source(10, 4, None, 0); let old = vec![7u8; pre]; let mut buf = TryVec::from(old.clone());
            let r = match via { 0 => try_read_up_to(&mut s, limit, &mut buf).is_err(), 1 => (&mut s).take(limit).try_read_to_end(&mut buf).is_err(), _ => (&mut s).take(limit).read_into_try_vec().is_err() };
            ensure!(r, "accepted"); ensure!(s.calls == 0 && &buf[..] == &old[..], "read although the space could not be reserved");
            Ok(())
        });
    } } }
    for pre in [0usize, 1, 7, 8, 9] { for cap in [0usize, 3, 20] { for n in [0usize, 1, 2, 8, 13, 64] { for af in [-1i64, 0] { for how in 0..5 {
        cx.distinct += 1;
        cx.case(|| format!("write {} bytes after {} with spare {} (how {}, allocation {})", n, pre, cap, how, af), || {
            let mut v = Vec::with_capacity(pre + cap); v.extend((0..pre).map(|i| i as u8));
            let room = v.capacity() - pre;
            let mut t = TryVec::from(v); let data: Vec<u8> = (0..n).map(|i| (i * 5 + 9) as u8).collect();
            let r = with_alloc_fail(af, || match how { 0 => t.write(&data), 1 => t.write_all(&data).map(|_| n),
                3 => { let mut k = 0; while k < n { let m = (k + n) / 2; let w = t.write_vectored(&[io::IoSlice::new(&[]), io::IoSlice::new(&data[k..m]), io::IoSlice::new(&data[m..])])?; if w == 0 || w > n - k { return Ok(n + 1); } k += w; } Ok(k) }
                4 => { (&mut t).by_ref().write_all(&data).map(|_| n) }
                _ => { t.flush()?; t.write_all(&data[..n / 2])?; t.write_all(&data[n / 2..]).map(|_| n) } });
            match r { Ok(k) => { ensure!(k == n, "returned {} instead of {}", k, n); ensure!(t.len() == pre + n && t[..pre].iter().enumerate().all(|(i, b)| *b == i as u8) && t[pre..] == data[..], "contents {:?}", t); }
                Err(_) => { ensure!(af >= 0 && n > room, "failed without a reason"); let keep = t.len(); ensure!(keep == pre || how == 2 && keep == pre + n / 2 || how == 3 && keep <= pre + n && t[pre..] == data[..keep - pre], "partial write on Err"); ensure!(t[..pre].iter().enumerate().all(|(i, b)| *b == i as u8), "contents changed on Err"); } }
            Ok(())
        });
    } } } } }
    for pre in [0usize, 7, 300, 5000, 70_000] { for n in [1usize, 100, 255, 256, 257, 1000, 4096, 4097, 5000, 65_536, 66_000, 140_000] { for cap in [0usize, 300, 80_000] { for af in [-1i64, 0] { for how in 0..3 {
        if how > 0 && (n > 70_000 || pre > 5000) { continue; }
        cx.distinct += 1;
        cx.case(|| format!("write {} bytes after {} with spare {} (how {}, allocation {})", n, pre, cap, how, af), || {
            let mut v = Vec::with_capacity(pre + cap); v.extend((0..pre).map(|i| (i / 3) as u8)); let room = v.capacity() - pre; let old = v.clone();
            let mut t = TryVec::from(v); let data: Vec<u8> = (0..n).map(|i| (i * 5 + i / 256) as u8).collect(); let m = n / 3;
            let r = with_alloc_fail(af, || match how { 0 => t.write(&data), 1 => t.write_all(&data).map(|_| n), _ => { let k = t.write_vectored(&[io::IoSlice::new(&data[..m]), io::IoSlice::new(&data[m..])])?; if k < n { t.write_all(&data[k..])?; } Ok(n) } });
            match r { Ok(k) => { ensure!(k <= n && (how == 0 || k == n) && (k > 0 || n == 0), "returned {} for {}", k, n); ensure!(t.len() == pre + k && t[..pre] == old[..] && t[pre..] == data[..k], "contents"); } Err(_) => { ensure!(af >= 0 && n > room, "failed without a reason"); ensure!(t[..pre] == old[..] && (how == 2 || t.len() == pre), "contents changed on Err"); } }
            Ok(())
        });
    } } } } }
}
