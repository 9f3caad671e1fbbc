//! Programs that have to be accepted, each in a function of its own. They are only type-checked.
#![allow(dead_code, unused)]
extern crate ruplicity;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::collections::{BackupChain, BackupSet, Collections, SignatureChain, SignatureFile};
use ruplicity::manifest::{Manifest, ParseError, Volume};
use ruplicity::signatures::{Chain, Entry, EntryType};
use ruplicity::timefmt::PrettyDisplay;
use ruplicity::{signatures, Backup, ManifestRef, Snapshot, SnapshotEntries, Snapshots};
use std::error::Error;
use std::fmt::Display;
use std::io;
use std::path::Path;

fn shared<T: Send + Sync>() {}
fn sent<T: Send>() {}
fn owned<T: Send + Sync + 'static>() {}

fn shared_collections() { owned::<Collections>() }
fn shared_backup_chain() { owned::<BackupChain>() }
fn shared_backup_set() { owned::<BackupSet>() }
fn shared_signature_chain() { owned::<SignatureChain>() }
fn shared_signature_file() { owned::<SignatureFile>() }
fn shared_manifest() { owned::<Manifest>() }
fn shared_volume() { owned::<Volume>() }
fn shared_chain() { owned::<Chain>() }
fn shared_chain_snapshots<'a>() { shared::<signatures::Snapshots<'a>>() }
fn shared_chain_snapshot<'a>() { shared::<signatures::Snapshot<'a>>() }
fn shared_entries<'a>() { shared::<signatures::SnapshotEntries<'a>>() }
fn shared_entry<'a>() { shared::<Entry<'a>>() }
fn shared_entry_type() { owned::<EntryType>() }
fn shared_local_backend() { owned::<LocalBackend>() }
fn shared_time_display() { owned::<PrettyDisplay>() }
fn shared_error() { owned::<ParseError>() }
fn sent_backup<B: Backend + Send>() { sent::<Backup<B>>() }
fn error_as_any(e: ParseError) -> Box<dyn Error + Send + Sync> { Box::new(e) }

// what is given out lives as long as what it was read from, not only as long as the way to it
fn kept_snapshots<'a, B: Backend>(b: &'a Backup<B>) -> io::Result<Vec<Snapshot<'a>>> { Ok(b.snapshots()?.into_iter().collect()) }
fn kept_collections<'a, B: Backend>(b: &'a Backup<B>) -> io::Result<&'a Collections> { Ok(b.snapshots()?.as_collections()) }
fn kept_set<'a>(s: &Snapshot<'a>) -> &'a BackupSet { s.as_backup_set() }
fn kept_manifest<'a>(s: &Snapshot<'a>) -> Result<ManifestRef<'a>, ParseError> { s.manifest() }
fn kept_file_entries<'a>(c: &'a Chain) -> Vec<Vec<Entry<'a>>> { c.snapshots().map(|s| s.files().collect()).collect() }
fn kept_path<'a>(e: Entry<'a>) -> (Option<&'a Path>, &'a [u8], Option<&'a Path>) { (e.path(), e.path_bytes(), e.linked_path()) }
fn kept_names<'a>(e: Entry<'a>) -> (Option<&'a str>, Option<&'a str>) { (e.username(), e.groupname()) }
fn kept_files<'a>(s: signatures::Snapshot<'a>) -> signatures::SnapshotEntries<'a> { s.files() }
fn kept_volume_names(s: &BackupSet) -> Vec<Option<&str>> { (1..3).map(|i| s.volume_path(i)).collect() }
fn kept_volumes(m: &Manifest) -> Vec<(&[u8], &[u8], &str, &[u8])> {
    (1..3).filter_map(|i| m.volume(i)).map(|v| (v.start_path_bytes(), v.end_path_bytes(), v.hash_type(), v.hash())).collect()
}
fn kept_chains(c: &Collections) -> Vec<(&BackupSet, Vec<&BackupSet>)> { c.backup_chains().map(|c| (c.full_set(), c.inc_sets().collect())).collect() }
fn kept_signature_names(c: &Collections) -> Vec<Vec<&SignatureFile>> {
    c.signature_chains().map(|c| Some(c.full_signature()).into_iter().chain(c.inc_signatures()).collect()).collect()
}

// several requests can be alive at once
fn together<B: Backend>(b: &Backup<B>) -> Result<(), Box<dyn Error>> {
    let all: Vec<_> = b.snapshots()?.into_iter().collect();
    let mut open = vec![];
    let mut read = vec![];
    for s in &all {
        open.push(s.manifest()?);
        read.push(s.entries()?);
    }
    for (m, e) in open.iter().zip(&read) {
        let (_, _): (&str, usize) = (m.hostname(), e.as_signature().count());
    }
    Ok(())
}
fn cloned<'a>(e: &signatures::SnapshotEntries<'a>) -> (signatures::SnapshotEntries<'a>, impl Display + 'a) { (e.clone(), e.clone().into_display()) }
fn counted(c: &Chain) -> (usize, impl ExactSizeIterator + '_) { (c.snapshots().len(), c.snapshots()) }

// backends and names of any kind
struct Mine;
impl Backend for Mine {
    type FileName = std::rc::Rc<Path>;
    type FileNameIter = Box<dyn Iterator<Item = std::rc::Rc<Path>>>;
    type FileStream = Box<dyn io::Read>;
    fn file_names(&self) -> io::Result<Self::FileNameIter> { Ok(Box::new(std::iter::empty())) }
    fn open_file(&self, _: &Path) -> io::Result<Self::FileStream> { Ok(Box::new(io::empty())) }
}
fn any_backend() -> io::Result<Mine> { Ok(Backup::new(Mine)?.into_inner()) }
fn any_names(a: Vec<String>, b: &[&str]) -> (Collections, Collections) { (Collections::from_filenames(a), Collections::from_filenames(b)) }
fn any_input(a: &[u8]) -> Result<(Manifest, Manifest), ParseError> { Ok((Manifest::parse(&mut &a[..])?, Manifest::parse(&mut io::BufReader::new(a))?)) }
