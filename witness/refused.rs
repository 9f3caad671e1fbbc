//! Programs that have to be refused: they show that the compiler judges what the others need.
#![allow(dead_code, unused)]
extern crate ruplicity;
use ruplicity::backend::Backend;
use ruplicity::{Backup, Snapshot};

fn owned<T: Send + Sync + 'static>() {}

#[cfg(not_shared)]
fn not_shared() { owned::<std::rc::Rc<u8>>() }
#[cfg(not_kept)]
fn not_kept<'a, 'b, B: Backend>(a: &'a Backup<B>, b: &'b Backup<B>) -> Option<Snapshot<'a>> { b.snapshots().ok()?.into_iter().next() }
#[cfg(not_there)]
fn not_there<B: Backend>(a: &Backup<B>) { a.there_is_no_such_function() }
