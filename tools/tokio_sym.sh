#!/bin/bash
# A copy of the registry's tokio in which the current-thread scheduler asks the harness which ready
# task runs next (default: the first, as in the original).
set -e
out=${1:?out}; rm -rf "$out.tmp"
src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/tokio-1.54.1)
mkdir -p "$(dirname "$out")"; cp -r "$src" "$out.tmp"
f=$out.tmp/src/runtime/scheduler/current_thread/mod.rs
python3 - "$f" "$out.tmp/src/lib.rs" <<'P'
import sys
f,l=sys.argv[1:]
s=open(f).read()
a='let ret = self.tasks.pop_front();'
assert s.count(a)==1
s=s.replace(a,'''let ret = { let i = crate::zsched::take(self.tasks.len()); self.tasks.remove(i) };
        crate::zsched::set_ready(self.tasks.len());''')
a='self.tasks.push_back(task);'
assert s.count(a)==1
s=s.replace(a,a+' crate::zsched::set_ready(self.tasks.len());')
open(f,'w').write(s)
s=open(l).read()
s+='''
/// Scheduling choices made from outside (verification only).
pub mod zsched {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static READY: AtomicUsize = AtomicUsize::new(0);
    static PICK: AtomicUsize = AtomicUsize::new(0);
    /// tasks ready to run
    pub fn ready() -> usize { READY.load(Relaxed) }
    /// run the i-th ready task next
    pub fn pick(i: usize) { PICK.store(i, Relaxed) }
    pub(crate) fn take(n: usize) -> usize { let i = PICK.swap(0, Relaxed); if i < n { i } else { 0 } }
    pub(crate) fn set_ready(n: usize) { READY.store(n, Relaxed) }
}
'''
open(l,'w').write(s)
P
rm -rf "$out"; mv "$out.tmp" "$out"
