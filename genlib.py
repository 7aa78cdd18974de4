"""Regenerates harness/src/lib.rs from the harness modules present."""
import os
V = os.path.dirname(os.path.abspath(__file__))
s='''//! Contracts of mlx9064x, stated on its public functions (one feature per property).
#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]
pub mod vf;
pub mod clb;
pub mod bus;
pub mod drv;
pub mod cam;
'''
ids=['c%02d'%i for i in range(1,18)]
ids=[i for i in ids if os.path.exists(V+'/harness/src/%s.rs'%i)]
for i in ids: s+='#[cfg(feature = "%s")]\npub mod %s;\n'%(i,i)
s+='pub const TABLES: &[&[(&str, extern "C" fn())]] = &[\n'
for i in ids: s+='    #[cfg(feature = "%s")]\n    %s::TABLE,\n'%(i,i)
s+='];\n'
open(V+'/harness/src/lib.rs','w').write(s)
