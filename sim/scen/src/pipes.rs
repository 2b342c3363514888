//! The two byte streams between the simulated client and the real server.

use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

use crate::world::{installed, w, OutFault, OutMode, World};

pub struct InPipe;
pub struct OutPipe;

impl World {
    fn poll_in(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        if !self.calm && self.cfg.spurious > 0 && self.ch.chance(self.cfg.spurious, 100) {
            self.fault("input_spurious_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.in_buf.is_empty() {
            if self.in_err || self.in_eof {
                if self.in_end_seq.is_none() {
                    let err = self.in_err;
                    let s = self.ev(b'e', err as u64, || format!("server reads {}", if err { "error" } else { "end of input" }));
                    self.in_end_seq = Some(s);
                }
                return if self.in_err {
                    Poll::Ready(Err(io::Error::new(self.cfg.io_kind, "sim read error")))
                } else {
                    Poll::Ready(Ok(vec![]))
                };
            }
            self.in_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = self.in_buf.len().min(max);
        if !self.calm && n > 1 && self.cfg.chunk > 0 && self.ch.chance(20, 100) {
            n = 1 + self.ch.below(n as u32 - 1) as usize;
            self.fault("input_short_read");
        }
        let data: Vec<u8> = self.in_buf.drain(..n).collect();
        self.read_off += n as u64;
        let off = self.read_off;
        let s = self.ev(b'r', n as u64, || format!("server reads {n} bytes (to {off})"));
        while self.next_read < self.msgs.len() && self.msgs[self.next_read].end_off <= off {
            let i = self.next_read;
            self.msgs[i].read_seq = Some(s);
            if self.trace.is_some() {
                let (k, m, id) = (self.msgs[i].k, self.msgs[i].method.clone(), self.msgs[i].id.clone());
                self.trace.as_mut().unwrap().push(format!("            .. message #{i} {k:?} {m} id={id:?} fully read"));
            }
            self.next_read += 1;
        }
        Poll::Ready(Ok(data))
    }

    fn out_fault_now(&mut self, on: &[OutFault]) -> Option<OutFault> {
        match self.out_fault {
            Some(f) if on.contains(&f) => {
                if self.out_failed.is_none() {
                    let s = self.ev(b'F', 0, || format!("output fails: {f:?}"));
                    self.out_failed = Some(s);
                }
                Some(f)
            }
            _ => None,
        }
    }

    fn poll_out(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.out_fault_now(&[OutFault::Write, OutFault::Zero]) {
            Some(OutFault::Zero) => {
                self.fault("output_zero_write");
                return Poll::Ready(Ok(0));
            }
            Some(_) => {
                self.fault("output_write_error");
                return Poll::Ready(Err(io::Error::new(self.cfg.io_kind, "sim write error")));
            }
            None => {}
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if !self.calm && self.cfg.spurious > 0 && self.ch.chance(self.cfg.spurious, 100) {
            self.fault("output_spurious_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf.len();
        match self.out_mode {
            OutMode::Open => {}
            OutMode::Stalled | OutMode::Credit(0) => {
                self.out_waker = Some(cx.waker().clone());
                self.out_blocked = true;
                return Poll::Pending;
            }
            OutMode::Credit(c) => n = n.min(c as usize),
        }
        if !self.calm && self.cfg.short_write && n > 1 && self.ch.chance(50, 100) {
            n = 1 + self.ch.below(n as u32 - 1) as usize;
        }
        if n < buf.len() {
            self.fault("output_short_write");
        }
        if let OutMode::Credit(c) = &mut self.out_mode {
            *c -= n as u32;
        }
        self.out_blocked = false;
        self.out_total += n as u64;
        self.ev(b'w', n as u64, || format!("server writes {n} bytes"));
        if self.cfg.flush_buffered {
            self.out_pend.extend_from_slice(&buf[..n]);
        } else {
            self.out_vis.extend_from_slice(&buf[..n]);
            self.parse_output();
        }
        if self.cfg.pend_flush && !self.calm {
            self.flush_debt = 1 + self.ch.below(2);
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush_out(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.out_fault_now(&[OutFault::Flush, OutFault::Write]).is_some() {
            self.fault("output_flush_error");
            return Poll::Ready(Err(io::Error::new(self.cfg.io_kind, "sim flush error")));
        }
        if self.flush_debt > 0 && !self.calm {
            self.flush_debt -= 1;
            self.fault("output_flush_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if !self.out_pend.is_empty() {
            if self.out_mode == OutMode::Stalled {
                self.out_waker = Some(cx.waker().clone());
                self.out_blocked = true;
                return Poll::Pending;
            }
            let p = std::mem::take(&mut self.out_pend);
            self.ev(b'f', p.len() as u64, || "server flushes".into());
            self.out_vis.extend_from_slice(&p);
            self.parse_output();
        }
        self.out_blocked = false;
        Poll::Ready(Ok(()))
    }
}

impl Drop for InPipe {
    fn drop(&mut self) {
        if installed() {
            w(|w| w.pipes_dropped += 1);
        }
    }
}

impl Drop for OutPipe {
    fn drop(&mut self) {
        if installed() {
            w(|w| w.pipes_dropped += 1);
        }
    }
}

#[cfg(feature = "tokio-rt")]
mod imp {
    use super::*;
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

    impl AsyncRead for InPipe {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            match w(|w| w.poll_in(cx, buf.remaining())) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(d)) => {
                    buf.put_slice(&d);
                    Poll::Ready(Ok(()))
                }
            }
        }
    }
    impl AsyncWrite for OutPipe {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            w(|w| w.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            w(|w| w.poll_flush_out(cx))
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            w(|w| w.poll_flush_out(cx))
        }
    }
}

#[cfg(feature = "agnostic-rt")]
mod imp {
    use super::*;
    use futures::io::{AsyncRead, AsyncWrite};

    impl AsyncRead for InPipe {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            match w(|w| w.poll_in(cx, buf.len())) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(d)) => {
                    buf[..d.len()].copy_from_slice(&d);
                    Poll::Ready(Ok(d.len()))
                }
            }
        }
    }
    impl AsyncWrite for OutPipe {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            w(|w| w.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            w(|w| w.poll_flush_out(cx))
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            w(|w| w.poll_flush_out(cx))
        }
    }
}
