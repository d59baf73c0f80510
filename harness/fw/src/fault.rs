//! Readers under the control of a plan.
use std::io::{self, Read};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step { Give(usize), Interrupted, Error(io::ErrorKind) }

/// Delivers bytes step by step; when the plan is used up, `last` is repeated (or all is delivered).
pub struct Feed { pub data: Vec<u8>, pub at: usize, pub plan: Vec<Step>, pub next: usize, pub last: Option<Step>, pub calls: u64, pub limit: u64 }
impl Feed {
    pub fn new(data: &[u8], plan: Vec<Step>, last: Option<Step>) -> Feed { Feed { data: data.to_vec(), at: 0, plan, next: 0, last, calls: 0, limit: 100_000 } }
    pub fn chunks(data: &[u8], n: usize) -> Feed { Feed::new(data, vec![], Some(Step::Give(n))) }
}
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.limit { panic!("the reader is asked again and again ({} calls)", self.calls) }
        let planned = self.next < self.plan.len();
        let s = if planned { self.next += 1; self.plan[self.next - 1].clone() } else { self.last.clone().unwrap_or(Step::Give(usize::MAX)) };
        match s {
            Step::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Step::Error(k) => Err(io::Error::new(k, "injected error")),
            Step::Give(n) => {
                let k = n.min(buf.len()).min(self.data.len() - self.at);
                buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
                self.at += k;
                // what does not fit the buffer is delivered by the next call
                if k < n && k == buf.len() && planned { self.next -= 1; self.plan[self.next] = Step::Give(n - k); }
                Ok(k)
            }
        }
    }
}
