#!/bin/bash
# A copy of the registry's futures-util in which the harness chooses the order in which `select!` polls
# its branches (in the original it is pseudo-random).
set -e
out=${1:?out}; rm -rf "$out.tmp"
src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/futures-util-0.3.34)
mkdir -p "$(dirname "$out")"; cp -r "$src" "$out.tmp"
python3 - "$out.tmp/src/async_await/random.rs" "$out.tmp/src/lib.rs" <<'P'
import sys
f,l=sys.argv[1:]
s=open(f).read()
a='    (random() % n as u64) as usize\n'
assert s.count(a)==1
i=s.index('/// Pseudorandom')
s=s[:i].replace(a,'    crate::zselect::index(n)\n')
s=s.replace('''use std::{
    cell::Cell,
    collections::hash_map::DefaultHasher,
    hash::Hasher,
    num::Wrapping,
    sync::atomic::{AtomicUsize, Ordering},
};
''','')
open(f,'w').write(s)
s=open(l).read()
s+='''
/// The order in which `select!` polls (verification only).
pub mod zselect {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static LAST: AtomicUsize = AtomicUsize::new(usize::MAX);
    /// 0: the branches are polled rotated by one; otherwise in order
    pub fn set(i: usize) { LAST.store(i, Relaxed) }
    pub(crate) fn index(n: usize) -> usize { core::cmp::min(LAST.load(Relaxed), n - 1) }
}
'''
open(l,'w').write(s)
P
rm -rf "$out"; mv "$out.tmp" "$out"
