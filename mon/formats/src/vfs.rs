//! The virtual file system: files of the operating system, images, volume systems and file
//! systems on top of each other.

use std::collections::BTreeSet;
use std::fs;
use std::io::SeekFrom;
use std::os::unix::fs::{FileExt, MetadataExt};
use std::path::PathBuf;
use std::time::{Duration, UNIX_EPOCH};

use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, PosixTime32, PosixTime64Ns};
use keramics_formats::PathComponent;
use keramics_formats::ext::{ExtFileEntry, ExtFileSystem, ExtPath};
use keramics_formats::fat::{FatFileEntry, FatFileSystem, FatPath, FatString};
use keramics_formats::ntfs::{NtfsAttribute, NtfsFileEntry, NtfsFileSystem, NtfsPath};
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use mon_common::*;

use crate::media::*;
use crate::{ewf, ext, fat, ntfs, qcow, sparse, udif, vhd, vhdx, volume};

/// A directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("keramics-vfs-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn put(&self, name: &str, m: &Media) {
        let f = fs::File::create_new(self.0.join(name)).expect("scratch file");
        f.set_len(m.size).expect("scratch file");
        for (at, data) in m.blocks() {
            let n = (m.size.saturating_sub(at)).min(data.len() as u64) as usize;
            if data[..n].iter().any(|b| *b != 0) {
                f.write_all_at(&data[..n], at).expect("scratch file");
            }
        }
    }
    pub fn put_all(&self, files: &Files) {
        for (name, m) in files.iter() {
            self.put(name, m);
        }
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn has(m: &Media, at: u64, what: &[u8]) -> bool {
    at + what.len() as u64 <= m.size && m.get(at, what.len()) == what
}

pub fn file_system_of(m: &Media) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    if has(m, 1080, &[0x53, 0xef]) {
        s.insert("EXT");
    }
    if has(m, 54, b"FAT12   ") || has(m, 54, b"FAT16   ") || has(m, 82, b"FAT32   ") {
        s.insert("FAT");
    }
    if has(m, 3, b"NTFS    ") {
        s.insert("NTFS");
    }
    s
}

pub fn volume_system_of(m: &Media) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    if has(m, 560, b"Apple_partition_map\0\0\0\0\0\0\0\0\0\0\0\0\0") {
        s.insert("APM");
    }
    if [512, 1024, 2048, 4096].iter().any(|o| has(m, *o, b"EFI PART")) {
        s.insert("GPT");
    }
    let fs = file_system_of(m);
    if s.is_empty() && !fs.contains("FAT") && !fs.contains("NTFS") && [510, 1022, 2046, 4094].iter().any(|o| has(m, *o, &[0x55, 0xaa])) {
        s.insert("MBR");
    }
    s
}

pub fn image_of(m: &Media) -> BTreeSet<&'static str> {
    let mut s = BTreeSet::new();
    for (name, sig) in [("EWF", &b"EVF\x09\x0d\x0a\xff\x00"[..]), ("QCOW", b"QFI\xfb\0\0\0\x01"), ("QCOW", b"QFI\xfb\0\0\0\x02"), ("QCOW", b"QFI\xfb\0\0\0\x03"), ("SPARSEIMAGE", b"sprs"), ("VHDX", b"vhdxfile")] {
        if has(m, 0, sig) {
            s.insert(name);
        }
    }
    if m.size >= 512 {
        for (name, sig) in [("UDIF", &b"koly"[..]), ("VHD", b"conectix")] {
            if has(m, m.size - 512, sig) {
                s.insert(name);
            }
        }
    }
    s
}

fn vfs_type(name: &str) -> VfsType {
    match name {
        "APM" => VfsType::Apm,
        "EXT" => VfsType::Ext,
        "EWF" => VfsType::Ewf,
        "FAT" => VfsType::Fat,
        "GPT" => VfsType::Gpt,
        "MBR" => VfsType::Mbr,
        "NTFS" => VfsType::Ntfs,
        "QCOW" => VfsType::Qcow,
        "SPARSEIMAGE" => VfsType::SparseImage,
        "UDIF" => VfsType::Udif,
        "VHD" => VfsType::Vhd,
        "VHDX" => VfsType::Vhdx,
        _ => VfsType::Os,
    }
}

/// A location as text: the type and the path of every layer, the outermost first.
fn shown(l: &VfsLocation) -> Vec<(String, String)> {
    let mut v = match l.get_parent() {
        Some(p) => shown(p),
        None => Vec::new(),
    };
    v.push((l.get_type().as_str().to_string(), l.get_path().to_string()));
    v
}

fn told(l: &VfsLocation) -> String {
    shown(l).iter().map(|(t, p)| format!("type: {t}: path: {p}\n")).collect()
}

pub fn root_path(name: &str) -> &'static str {
    if name == "NTFS" { "\\" } else { "/" }
}

/// What is known of a directory entry.
pub struct Item {
    pub path: Vec<VfsString>,
    pub kind: String,
    pub size: Result<u64, ()>,
    /// Access, change, creation and modification.
    pub times: [Option<DateTime>; 4],
    pub link: Result<Option<VfsPath>, ()>,
    pub forks: Vec<(Option<VfsString>, DataStreamReference)>,
    pub root: bool,
    pub subs: usize,
    pub more: More,
}

/// What only the tools tell of a directory entry.
#[derive(Default)]
pub struct More {
    pub id: String,
    /// The mode, of file systems that have it.
    pub mode: Option<u16>,
    /// The file attribute flags, of file systems that have them.
    pub flags: Option<u32>,
    pub owner: String,
    pub group: String,
    pub main: Option<DataStreamReference>,
    /// The times of the names.
    pub names: Vec<[DateTime; 4]>,
    /// What the entry is looked up by.
    pub number: Option<u64>,
}

fn kind_name(t: &VfsFileType) -> String {
    match t {
        VfsFileType::BlockDevice => "block device".into(),
        VfsFileType::CharacterDevice => "character device".into(),
        VfsFileType::Device => "device".into(),
        VfsFileType::Directory => "directory".into(),
        VfsFileType::File => "file".into(),
        VfsFileType::NamedPipe => "named pipe".into(),
        VfsFileType::Socket => "socket".into(),
        VfsFileType::SymbolicLink => "symbolic link".into(),
        VfsFileType::Unknown(n) => format!("unknown {n:#x}"),
        VfsFileType::Whiteout => "whiteout".into(),
    }
}

type Walked = Result<(), String>;

fn split<T: Copy + PartialEq>(v: &[T], at: T) -> Vec<Vec<T>> {
    v.split(|x| *x == at).map(|c| c.to_vec()).collect()
}

fn walk_ext(e: &mut ExtFileEntry, path: &mut Vec<VfsString>, out: &mut Vec<Item>) -> Walked {
    let err = |e: keramics_core::ErrorTrace| e.to_string();
    path.push(match e.get_name() {
        Some(n) => VfsString::Byte(n.clone()),
        None => VfsString::Empty,
    });
    let subs = e.get_number_of_sub_file_entries().map_err(err)?;
    for i in 0..subs {
        walk_ext(&mut e.get_sub_file_entry_by_index(i).map_err(err)?, path, out)?;
    }
    let mode = e.get_file_mode() & 0xf000;
    let kind = match mode {
        0x1000 => "named pipe".into(),
        0x2000 => "character device".into(),
        0x4000 => "directory".into(),
        0x6000 => "block device".into(),
        0x8000 => "file".into(),
        0xa000 => "symbolic link".into(),
        0xc000 => "socket".into(),
        m => format!("unknown {m:#x}"),
    };
    let link = e.get_symbolic_link_target().map_err(|_| ()).map(|l| {
        l.map(|l| {
            let parts = if l.elements == [0x2f] { vec![Vec::new()] } else { split(&l.elements, 0x2f) };
            VfsPath::Ext(ExtPath { components: parts.iter().map(|p| ByteString::from(p.as_slice())).collect() })
        })
    });
    let forks = match e.get_data_stream().map_err(err)? {
        Some(s) if mode == 0x8000 => vec![(None, s)],
        _ => Vec::new(),
    };
    let t = |t: Option<&DateTime>| t.cloned();
    out.push(Item {
        path: path.clone(),
        kind,
        size: Ok(e.get_size()),
        times: [t(e.get_access_time()), t(e.get_change_time()), t(e.get_creation_time()), t(e.get_modification_time())],
        link,
        forks,
        root: e.is_root_directory(),
        subs,
        more: More {
            id: e.inode_number.to_string(),
            mode: Some(e.get_file_mode()),
            flags: None,
            owner: e.get_owner_identifier().to_string(),
            group: e.get_group_identifier().to_string(),
            main: e.get_data_stream().map_err(err)?,
            names: Vec::new(),
            number: Some(e.inode_number as u64),
        },
    });
    path.pop();
    Ok(())
}

fn fat_string(n: &FatString) -> VfsString {
    match n {
        FatString::ByteString(b) => VfsString::Byte(b.clone()),
        FatString::Ucs2String(u) => VfsString::Ucs2(u.clone()),
    }
}

fn walk_fat(e: &mut FatFileEntry, path: &mut Vec<VfsString>, out: &mut Vec<Item>) -> Walked {
    let err = |e: keramics_core::ErrorTrace| e.to_string();
    path.push(match e.get_name() {
        Some(n) => fat_string(&n),
        None => VfsString::Empty,
    });
    let subs = e.get_number_of_sub_file_entries().map_err(err)?;
    for i in 0..subs {
        walk_fat(&mut e.get_sub_file_entry_by_index(i).map_err(err)?, path, out)?;
    }
    let directory = e.is_directory();
    let forks = match e.get_data_stream().map_err(err)? {
        Some(s) if !directory => vec![(None, s)],
        _ => Vec::new(),
    };
    let t = |t: Option<&DateTime>| t.cloned();
    out.push(Item {
        path: path.clone(),
        kind: if directory { "directory".into() } else { "file".into() },
        size: Ok(e.get_size()),
        times: [t(e.get_access_time()), None, t(e.get_creation_time()), t(e.get_modification_time())],
        link: Ok(None),
        forks,
        root: e.is_root_directory(),
        subs,
        more: More {
            id: format!("0x{:08x}", e.identifier),
            flags: Some(e.get_file_attribute_flags() as u32),
            main: e.get_data_stream().map_err(err)?,
            ..More::default()
        },
    });
    path.pop();
    Ok(())
}

fn walk_ntfs(e: &mut NtfsFileEntry, path: &mut Vec<VfsString>, out: &mut Vec<Item>) -> Walked {
    let err = |e: keramics_core::ErrorTrace| e.to_string();
    path.push(match e.get_name() {
        Some(n) => VfsString::Ucs2(n.clone()),
        None => VfsString::Empty,
    });
    let subs = e.get_number_of_sub_file_entries().map_err(err)?;
    for i in 0..subs {
        walk_ntfs(&mut e.get_sub_file_entry_by_index(i).map_err(err)?, path, out)?;
    }
    let kind = if e.is_symbolic_link() {
        "symbolic link"
    } else if e.is_directory() {
        "directory"
    } else {
        "file"
    };
    let link = e.get_symbolic_link_target().map_err(|_| ()).map(|l| {
        l.map(|l| {
            let prefix: Vec<u16> = "\\??\\".encode_utf16().collect();
            let rest = l.elements.strip_prefix(prefix.as_slice()).unwrap_or(&l.elements);
            let parts = if rest == [0x5c] { vec![Vec::new()] } else { split(rest, 0x5c) };
            VfsPath::Ntfs(NtfsPath { components: parts.iter().map(|p| Ucs2String::from(p.as_slice())).collect() })
        })
    });
    let mut forks = Vec::new();
    for i in 0..e.get_number_of_data_forks().map_err(err)? {
        let f = e.get_data_fork_by_index(i).map_err(err)?;
        forks.push((f.get_name().map(|n| VfsString::Ucs2(n.clone())), f.get_data_stream().map_err(err)?));
    }
    let t = |t: Option<&DateTime>| t.cloned();
    let mut names = Vec::new();
    if let Some(parent) = e.get_parent_file_reference() {
        for k in 0..e.get_number_of_attributes() {
            if let NtfsAttribute::FileName { file_name: f } = e.get_attribute_by_index(k).map_err(err)?
                && f.parent_file_reference == parent
                && Some(&f.name) == e.get_name()
                && f.name_space != 2
            {
                names.push([f.access_time.clone(), f.entry_modification_time.clone(), f.creation_time.clone(), f.modification_time.clone()]);
            }
        }
    }
    out.push(Item {
        path: path.clone(),
        kind: kind.into(),
        size: Ok(e.get_size()),
        times: [t(e.get_access_time()), t(e.get_change_time()), t(e.get_creation_time()), t(e.get_modification_time())],
        link,
        forks,
        root: e.is_root_directory(),
        subs,
        more: More {
            id: format!("{}-{}", e.get_file_reference() & 0xffff_ffff_ffff, e.get_file_reference() >> 48),
            flags: Some(e.get_file_attribute_flags()),
            main: e.get_data_stream().map_err(err)?,
            names,
            number: Some(e.get_file_reference() & 0xffff_ffff_ffff),
            ..More::default()
        },
    });
    path.pop();
    Ok(())
}

/// Lists a file system without the virtual file system.
pub fn direct(kind: &str, m: &Media) -> Result<Vec<Item>, String> {
    let err = |e: keramics_core::ErrorTrace| e.to_string();
    let s = sparse_stream(m);
    let mut out = Vec::new();
    match kind {
        "EXT" => {
            let mut fs = ExtFileSystem::new();
            fs.read_data_stream(&s).map_err(err)?;
            if let Some(mut r) = fs.get_root_directory().map_err(err)? {
                walk_ext(&mut r, &mut Vec::new(), &mut out)?;
            }
        }
        "FAT" => {
            let mut fs = FatFileSystem::new();
            fs.read_data_stream(&s).map_err(err)?;
            walk_fat(&mut fs.get_root_directory().map_err(err)?, &mut Vec::new(), &mut out)?;
        }
        _ => {
            let mut fs = NtfsFileSystem::new();
            fs.read_data_stream(&s).map_err(err)?;
            walk_ntfs(&mut fs.get_root_directory().map_err(err)?, &mut Vec::new(), &mut out)?;
        }
    }
    Ok(out)
}

fn item(e: &mut VfsFileEntry, path: Vec<VfsString>) -> Result<Item, String> {
    let err = |e: keramics_core::ErrorTrace| e.to_string();
    let t = |t: Option<&DateTime>| t.cloned();
    let mut forks = Vec::new();
    for i in 0..e.get_number_of_data_forks().map_err(err)? {
        let f = e.get_data_fork_by_index(i).map_err(err)?;
        forks.push((f.get_name(), f.get_data_stream().map_err(err)?));
    }
    Ok(Item {
        path,
        kind: kind_name(&e.get_file_type()),
        size: Ok(e.get_size()),
        times: [t(e.get_access_time()), t(e.get_change_time()), t(e.get_creation_time()), t(e.get_modification_time())],
        link: e.get_symbolic_link_target().map_err(|_| ()),
        forks,
        root: e.is_root_directory(),
        subs: e.get_number_of_sub_file_entries().map_err(err)?,
        more: More::default(),
    })
}

pub fn piece(s: &DataStreamReference, at: u64, n: usize) -> Result<Vec<u8>, ()> {
    let mut s = s.write().unwrap();
    s.seek(SeekFrom::Start(at)).map_err(|_| ())?;
    let mut v = vec![0; n];
    let mut done = 0;
    while done < n {
        match s.read(&mut v[done..]).map_err(|_| ())? {
            0 => break,
            k => done += k,
        }
    }
    v.truncate(done);
    Ok(v)
}

/// Compares two streams in some places.
fn same_data(ctx: &mut Ctx, what: &str, a: &DataStreamReference, b: &DataStreamReference) -> CaseResult {
    let x = a.write().unwrap().get_size().map_err(|_| ());
    let y = b.write().unwrap().get_size().map_err(|_| ());
    require_eq!(x, y, "vfs:data", "{what}: size of the data");
    let size = x.unwrap_or(0);
    let mut at = vec![0, size.saturating_sub(5000), ctx.rng.below(size + 1)];
    if size > 10_000 {
        at.push(ctx.rng.below(size));
    }
    for at in at {
        let n = 6000;
        let r = no_panic("vfs:data", || (piece(a, at, n), piece(b, at, n)))?;
        require!(r.0 == r.1, "vfs:data", "{what}: data at {at} of {size}");
    }
    Ok(())
}

fn same_item(ctx: &mut Ctx, what: &str, got: &Item, want: &Item) -> CaseResult {
    let name: Vec<String> = want.path.iter().map(|p| p.to_string()).collect();
    let what = format!("{what} {name:?}");
    require!(got.path == want.path, "vfs:path", "{what}: observed {:?}", got.path);
    require_eq!(got.kind, want.kind, "vfs:file type", "{what}");
    require_eq!(got.size, want.size, "vfs:size", "{what}");
    for (k, n) in ["access", "change", "creation", "modification"].iter().enumerate() {
        require!(got.times[k] == want.times[k], "vfs:times", "{what}: {n} time {:?}, expected {:?}", got.times[k], want.times[k]);
    }
    require!(got.link == want.link, "vfs:link", "{what}: link {:?}, expected {:?}", got.link, want.link);
    require_eq!(got.root, want.root, "vfs:root", "{what}");
    require_eq!(got.subs, want.subs, "vfs:sub entries", "{what}");
    require_eq!(got.forks.len(), want.forks.len(), "vfs:forks", "{what}");
    for (k, (g, w)) in got.forks.iter().zip(&want.forks).enumerate() {
        require!(g.0 == w.0, "vfs:forks", "{what}: name of fork {k} {:?}, expected {:?}", g.0, w.0);
        same_data(ctx, &format!("{what} fork {k}"), &g.1, &w.1)?;
    }
    if matches!(want.link, Ok(Some(_))) {
        ctx.count("symbolic links");
    }
    Ok(())
}

/// The path of an entry of a file system, and the components below the root.
fn path_of(kind: &str, path: &[VfsString]) -> Option<(VfsPath, Vec<PathComponent>)> {
    let mut parts = Vec::new();
    for p in &path[1..] {
        parts.push(match p {
            VfsString::Byte(b) => PathComponent::ByteString(b.clone()),
            VfsString::Ucs2(u) => PathComponent::Ucs2String(u.clone()),
            VfsString::String(s) => PathComponent::String(s.clone()),
            _ => return None,
        });
    }
    let p = match kind {
        "EXT" => VfsPath::Ext(ExtPath {
            components: std::iter::once(ByteString::new()).chain(path[1..].iter().map(|p| match p {
                VfsString::Byte(b) => b.clone(),
                _ => ByteString::new(),
            })).collect(),
        }),
        "FAT" => VfsPath::Fat(FatPath {
            components: std::iter::once(FatString::from("")).chain(path[1..].iter().map(|p| match p {
                VfsString::Byte(b) => FatString::ByteString(b.clone()),
                VfsString::Ucs2(u) => FatString::Ucs2String(u.clone()),
                _ => FatString::from(""),
            })).collect(),
        }),
        _ => VfsPath::Ntfs(NtfsPath {
            components: std::iter::once(Ucs2String::new()).chain(path[1..].iter().map(|p| match p {
                VfsString::Ucs2(u) => u.clone(),
                _ => Ucs2String::new(),
            })).collect(),
        }),
    };
    Some((p, parts))
}

/// Compares what the virtual file system gives for a location with the file system itself.
fn file_system(ctx: &mut Ctx, kind: &str, location: &VfsLocation, m: &Media) -> CaseResult {
    let want = match direct(kind, m) {
        Ok(w) => w,
        Err(_) => {
            ctx.count("file systems that are not for the formats monitors");
            return Ok(());
        }
    };
    let resolver = VfsResolver::current();
    let fs = match no_panic("vfs:open", || resolver.open_file_system(location))? {
        Ok(f) => f,
        Err(e) => fail!("vfs:open", "{:?}: {}", shown(location), e.to_string()),
    };
    let finder = VfsFinder::new(&fs);
    let mut found = Vec::new();
    let r = no_panic("vfs:finder", || {
        for r in finder {
            found.push(r);
            if found.len() > want.len() + 10 {
                break;
            }
        }
    });
    r?;
    require_eq!(found.len(), want.len(), "vfs:finder", "{kind}: number of entries");
    for (k, (r, w)) in found.into_iter().zip(&want).enumerate() {
        let (mut e, path) = match r {
            Ok(x) => x,
            Err(e) => fail!("vfs:finder", "{kind}: entry {k} of {}: {}", want.len(), e.to_string()),
        };
        let name = match (e.get_name(), path.last()) {
            (Some(n), Some(l)) => n == *l,
            (None, Some(l)) => *l == VfsString::Empty,
            _ => false,
        };
        require!(name, "vfs:name", "{kind}: entry {k}: name {:?} of {:?}", e.get_name(), path);
        let got = match no_panic("vfs:entry", || item(&mut e, path))? {
            Ok(i) => i,
            Err(e) => fail!("vfs:entry", "{kind}: entry {k}: {e}"),
        };
        same_item(ctx, kind, &got, w)?;
        ctx.count("entries of file systems");
        if ctx.rng.chance(1, 3) || w.path.len() == 1 {
            lookup(ctx, kind, location, &fs, w, want.iter().filter(|x| x.path == w.path).count() > 1)?;
        }
    }
    ctx.count(&format!("{kind} file systems"));
    Ok(())
}

fn lookup(ctx: &mut Ctx, kind: &str, location: &VfsLocation, fs: &VfsFileSystem, w: &Item, twice: bool) -> CaseResult {
    let (path, parts) = match path_of(kind, &w.path) {
        Some(p) => p,
        None => return Ok(()),
    };
    let root = VfsPath::from_path(&vfs_type(kind), root_path(kind));
    let joined = match no_panic("vfs:join", || root.new_with_join(&parts))? {
        Ok(j) => j,
        Err(e) => fail!("vfs:join", "{kind}: {parts:?}: {}", e.to_string()),
    };
    require!(joined == path, "vfs:join", "{kind}: {parts:?} gave {joined:?}, expected {path:?}");
    let name = no_panic("vfs:file name", || path.get_file_name())?;
    require!(name == parts.last().cloned(), "vfs:file name", "{kind}: {path:?} has name {name:?}");
    let up = no_panic("vfs:parent", || path.new_with_parent_directory())?;
    let n = w.path.len().max(2) - 1;
    require!(Some(&up) == path_of(kind, &w.path[..n]).map(|p| p.0).as_ref(), "vfs:parent", "{kind}: the parent of {path:?} is {up:?}");
    match no_panic("vfs:exists", || fs.file_entry_exists(&path))? {
        Ok(b) => require!(b, "vfs:exists", "{kind}: {path:?} does not exist"),
        Err(e) => fail!("vfs:exists", "{kind}: {path:?}: {}", e.to_string()),
    }
    let at = location.new_with_parent(path.clone());
    require!(at.get_path() == &path && at.get_parent() == location.get_parent() && at.get_type() == location.get_type(), "vfs:location", "{:?} with path {path:?} is {:?}", shown(location), shown(&at));
    require_eq!(at.to_string(), told(&at), "vfs:location text", "{:?}", shown(&at));
    let r = VfsResolver::current();
    let mut e = match no_panic("vfs:lookup", || r.get_file_entry_by_location(&at))? {
        Ok(Some(e)) => e,
        Ok(None) => fail!("vfs:lookup", "{kind}: {path:?} was not found"),
        Err(e) => fail!("vfs:lookup", "{kind}: {path:?}: {}", e.to_string()),
    };
    if !twice {
        let got = match no_panic("vfs:entry", || item(&mut e, w.path.clone()))? {
            Ok(i) => i,
            Err(e) => fail!("vfs:entry", "{kind}: {path:?}: {e}"),
        };
        same_item(ctx, &format!("{kind} by path"), &got, w)?;
        // the iterator gives what the index gives
        let mut n = 0;
        match no_panic("vfs:sub entries", || e.sub_file_entries().map(|i| i.count()))? {
            Ok(k) => n += k,
            Err(e) => fail!("vfs:sub entries", "{kind}: {path:?}: {}", e.to_string()),
        }
        require_eq!(n, w.subs, "vfs:sub entries", "{kind}: {path:?}: what the iterator gives");
        for (name, data) in &w.forks {
            let text = match name {
                None => None,
                Some(VfsString::Ucs2(u)) => match String::from_utf16(&u.elements) {
                    Ok(t) => Some(t),
                    Err(_) => continue,
                },
                _ => continue,
            };
            match no_panic("vfs:stream", || r.get_data_stream_by_path_and_name(&at, text.as_deref()))? {
                Ok(Some(s)) => same_data(ctx, &format!("{kind} {path:?} {text:?}"), &s, data)?,
                Ok(None) => fail!("vfs:stream", "{kind}: {path:?}: no data {text:?}"),
                Err(e) => fail!("vfs:stream", "{kind}: {path:?}: data {text:?}: {}", e.to_string()),
            }
        }
        match no_panic("vfs:stream", || r.get_data_stream_by_path_and_name(&at, Some("no such fork")))? {
            Ok(None) => {}
            r => fail!("vfs:stream", "{kind}: {path:?}: a stream of another name: {:?}", r.map(|r| r.is_some()).map_err(|e| e.to_string())),
        }
        ctx.count("file entries by path");
    }
    if w.kind == "directory" {
        let mut missing = parts.clone();
        missing.push(match kind {
            "EXT" => PathComponent::ByteString(ByteString::from("no such entry")),
            "FAT" => PathComponent::Ucs2String(Ucs2String::from("no such entry")),
            _ => PathComponent::Ucs2String(Ucs2String::from("no such entry")),
        });
        let p = match root.new_with_join(&missing) {
            Ok(p) => p,
            Err(e) => fail!("vfs:join", "{kind}: {missing:?}: {}", e.to_string()),
        };
        match no_panic("vfs:missing", || (fs.file_entry_exists(&p), fs.get_file_entry_by_path(&p), fs.get_data_stream_by_path_and_name(&p, None)))? {
            (Ok(false), Ok(None), Ok(None)) => {}
            (a, b, c) => fail!("vfs:missing", "{kind}: {p:?}: {:?} {:?} {:?}", a.is_ok(), b.map(|b| b.is_some()).is_ok(), c.map(|c| c.is_some()).is_ok()),
        }
        ctx.count("missing names not found");
    }
    Ok(())
}

/// Checks the entries of an image or a volume system: one per content, by name and by index.
fn layers(ctx: &mut Ctx, kind: &str, parent: &VfsLocation, contents: &[Media]) -> CaseResult {
    let prefix = kind.to_lowercase();
    let t = vfs_type(kind);
    let root = parent.new_with_layer(&t, VfsPath::from_path(&t, "/"));
    let r = VfsResolver::current();
    let fs = match no_panic("vfs:open", || r.open_file_system(&root))? {
        Ok(f) => f,
        Err(e) => fail!("vfs:open", "{kind}: {}", e.to_string()),
    };
    let mut names = Vec::new();
    let finder = VfsFinder::new(&fs);
    let found = no_panic("vfs:finder", || finder.take(contents.len() + 10).collect::<Vec<_>>())?;
    for (k, x) in found.into_iter().enumerate() {
        let (mut e, path) = match x {
            Ok(x) => x,
            Err(e) => fail!("vfs:finder", "{kind}: entry {k}: {}", e.to_string()),
        };
        let i = match no_panic("vfs:entry", || item(&mut e, path))? {
            Ok(i) => i,
            Err(e) => fail!("vfs:entry", "{kind}: entry {k}: {e}"),
        };
        let last = i.path.last().map(|p| p.to_string()).unwrap_or_default();
        let is_root = i.path.len() == 1;
        require_eq!(i.kind, if is_root { "directory" } else { "file" }, "vfs:file type", "{kind}: entry {k}");
        require_eq!(i.root, is_root, "vfs:root", "{kind}: entry {k}");
        require_eq!(i.forks.len(), usize::from(!is_root), "vfs:forks", "{kind}: entry {k}");
        require_eq!(i.subs, if is_root { contents.len() } else { 0 }, "vfs:sub entries", "{kind}: entry {k}");
        require!(i.times.iter().all(|t| t.is_none()) && i.link == Ok(None), "vfs:times", "{kind}: entry {k}: {:?} {:?}", i.times, i.link);
        if !is_root && k < contents.len() {
            require_eq!(i.size, Ok(contents[k].size), "vfs:size", "{kind}: entry {k}");
            rewind(&i.forks[0].1);
            drive(ctx, "vfs:layer", &i.forks[0].1, &contents[k], 4, 9000)?;
        }
        names.push(last);
    }
    let mut expected: Vec<String> = (1..=contents.len()).map(|k| format!("{prefix}{k}")).collect();
    expected.push(String::new());
    require_eq!(names, expected, "vfs:finder", "{kind}: names of the entries");
    for (k, m) in contents.iter().enumerate() {
        if k > 20 && ctx.rng.chance(9, 10) {
            continue;
        }
        let p = VfsPath::from_path(&t, &format!("/{prefix}{}", k + 1));
        let at = root.new_with_parent(p.clone());
        require_eq!(at.to_string(), told(&at), "vfs:location text", "{:?}", shown(&at));
        match no_panic("vfs:exists", || fs.file_entry_exists(&p))? {
            Ok(true) => {}
            x => fail!("vfs:exists", "{kind}: {p:?}: {:?}", x.map_err(|e| e.to_string())),
        }
        let s = match no_panic("vfs:stream", || r.get_data_stream_by_path_and_name(&at, None))? {
            Ok(Some(s)) => s,
            x => fail!("vfs:stream", "{kind}: {p:?}: {:?}", x.map(|x| x.is_some()).map_err(|e| e.to_string())),
        };
        rewind(&s);
        drive(ctx, "vfs:layer", &s, m, 6, 9000)?;
        match no_panic("vfs:lookup", || r.get_file_entry_by_location(&at))? {
            Ok(Some(e)) => require_eq!(e.get_name().map(|n| n.to_string()), Some(format!("{prefix}{}", k + 1)), "vfs:name", "{kind}: {p:?}"),
            x => fail!("vfs:lookup", "{kind}: {p:?}: {:?}", x.map(|x| x.is_some()).map_err(|e| e.to_string())),
        }
        ctx.count("layers and partitions by path");
    }
    let n = contents.len();
    for p in [format!("/{prefix}0"), format!("/{prefix}{}", n + 1), format!("/{prefix}+1"), format!("/{prefix}01"), format!("/{prefix}"), format!("/{prefix}1/x"), format!("{prefix}1"), format!("/x{prefix}1"), format!("/{}1", prefix.to_uppercase()), format!("/{prefix}18446744073709551617"), format!("/{prefix}1 "), format!("/{prefix}\u{0661}"), "/x".into(), "".into()] {
        let q = VfsPath::from_path(&t, &p);
        if p.is_empty() {
            // the same as the root
            continue;
        }
        match no_panic("vfs:missing", || (fs.file_entry_exists(&q), fs.get_file_entry_by_path(&q)))? {
            (Ok(false), Ok(None)) => {}
            (a, b) => fail!("vfs:missing", "{kind}: {p}: exists {:?}, entry {:?}", a.map_err(|e| e.to_string()), b.map(|b| b.is_some()).map_err(|e| e.to_string())),
        }
    }
    // the same file as something else does not give the first one again
    let other = *ctx.rng.pick(&["APM", "EXT", "EWF", "FAT", "GPT", "MBR", "NTFS", "QCOW", "SPARSEIMAGE", "UDIF", "VHD", "VHDX"]);
    if other != kind {
        let o = parent.new_with_layer(&vfs_type(other), VfsPath::from_path(&vfs_type(other), root_path(other)));
        if let Ok(x) = no_panic("vfs:other type", || r.open_file_system(&o))? {
            let got = match &*x {
                VfsFileSystem::Apm(_) => "APM",
                VfsFileSystem::Ext(_) => "EXT",
                VfsFileSystem::Ewf(_) => "EWF",
                VfsFileSystem::Fat(_) => "FAT",
                VfsFileSystem::Gpt(_) => "GPT",
                VfsFileSystem::Mbr(_) => "MBR",
                VfsFileSystem::Ntfs(_) => "NTFS",
                VfsFileSystem::Qcow(_) => "QCOW",
                VfsFileSystem::SparseImage(_) => "SPARSEIMAGE",
                VfsFileSystem::Udif(_) => "UDIF",
                VfsFileSystem::Vhd(_) => "VHD",
                VfsFileSystem::Vhdx(_) => "VHDX",
                _ => "?",
            };
            require_eq!(got, other, "vfs:other type", "what the location of a {other} in a {kind} file gives");
        }
    }
    ctx.count(&format!("{kind} entries"));
    Ok(())
}

/// What a scan has to find.
#[derive(Debug, PartialEq)]
pub struct Node {
    pub kind: String,
    pub path: String,
    pub subs: Vec<Node>,
}

pub fn node(kind: &str, path: &str, subs: Vec<Node>) -> Node {
    Node { kind: kind.into(), path: path.into(), subs }
}

fn scanned(n: &VfsScanNode) -> Node {
    Node { kind: n.get_type().as_str().to_string(), path: n.location.get_path().to_string(), subs: n.sub_nodes.iter().map(scanned).collect() }
}

/// The parents of the nodes are what is above them.
fn chained(n: &VfsScanNode) -> bool {
    let container = |l: &VfsLocation| matches!(l.get_type(), VfsType::Apm | VfsType::Gpt | VfsType::Mbr);
    n.is_empty() == n.sub_nodes.is_empty()
        && n.is_file_system() == matches!(n.get_type(), VfsType::Ext | VfsType::Fat | VfsType::Ntfs)
        && n.sub_nodes.iter().all(|s| {
            let p = s.location.get_parent();
            let ok = match p {
                // a partition has the parent of its volume system
                Some(p) if container(&n.location) && s.get_type() == n.get_type() => Some(p) == n.location.get_parent(),
                // what is in a layer has the layer between it and its image
                Some(p) if p.get_type() == n.get_type() && p != &n.location => p.get_parent() == n.location.get_parent(),
                Some(p) => p == &n.location,
                None => false,
            };
            ok && chained(s)
        })
}

fn scan(location: &VfsLocation) -> Result<Result<(Node, bool), String>, Violation> {
    no_panic("vfs:scan", || {
        let mut s = VfsScanner::new();
        s.build().map_err(|_| "build".to_string())?;
        let mut c = VfsScanContext::new();
        s.scan(&mut c, location).map_err(|e| e.to_string())?;
        c.root_node.as_ref().map(|r| (scanned(r), chained(r))).ok_or("no root node".to_string())
    })
}

pub fn contents(ctx: &mut Ctx) -> Media {
    let rng = &mut ctx.rng;
    match rng.below(8) {
        0 | 1 => ext::build(rng, true).media,
        2..=4 => fat::build(rng).media,
        5 | 6 => ntfs::build(rng, false).media,
        _ => {
            let n = 512 * rng.below(40);
            let mut m = Media::new(n, 4096);
            if rng.chance(2, 3) {
                m.write(0, &fill(rng.next(), 0, n as usize));
            }
            m
        }
    }
}

pub fn stored(m: &Media) -> u64 {
    m.blocks().map(|b| b.1.len() as u64).sum()
}

/// File systems in partitions in an image in files.
pub struct Stack {
    pub dir: Scratch,
    pub describe: String,
    pub kind: &'static str,
    pub volumes: &'static str,
    pub files: Files,
    pub top: String,
    pub images: Vec<Media>,
    pub disk: Media,
    pub partitions: Vec<Media>,
    /// What a scan gives below the file, if that is clear.
    pub tree: Option<Vec<Node>>,
}

/// Makes one, with file systems that are no larger than wanted.
pub fn stack(ctx: &mut Ctx, largest: u64) -> Option<Stack> {
    let dir = Scratch::new();
    let volumes = *ctx.rng.pick(&["", "", "MBR", "GPT", "APM"]);
    let count = if volumes.is_empty() { 1 } else { ctx.rng.usize(0, 4) };
    let parts: Vec<Media> = (0..count).map(|_| {
        for _ in 0..20 {
            let m = contents(ctx);
            if m.size < largest && stored(&m) < 4_000_000 {
                return m;
            }
        }
        Media::new(4096, 4096)
    }).collect();
    let (mut disk, places) = if volumes.is_empty() {
        let mut m = parts[0].clone();
        m.size = m.size.div_ceil(512).max(1) * 512;
        (m, Vec::new())
    } else {
        volume::pack(&mut ctx.rng, &volumes.to_lowercase(), &parts)
    };
    // an image of whole sectors, and no empty one
    disk = disk.resized(disk.size.div_ceil(512).max(2) * 512);
    let small = disk.size <= 1 << 26;
    let kinds: &[&str] = if small { &["OS", "OS", "EWF", "QCOW", "SPARSEIMAGE", "UDIF", "VHD", "VHDX"] } else if disk.size < 1 << 36 { &["OS", "QCOW", "VHD", "VHDX"] } else { &["OS", "OS", "QCOW"] };
    let mut kind = *ctx.rng.pick(kinds);
    if disk.size > (1 << 42) && kind == "OS" {
        kind = "QCOW";
    }
    // a layer below that has other data in some places
    let mut below = disk.clone();
    let twice = matches!(kind, "QCOW" | "VHD" | "VHDX") && ctx.rng.chance(1, 2);
    if twice {
        for _ in 0..ctx.rng.below(6) {
            let at = ctx.rng.below(disk.size.min(1 << 20));
            let n = (disk.size - at).min(600) as usize;
            let junk = ctx.rng.bytes(n);
            below.write(at, &junk);
        }
    }
    let mut files = Files::new();
    let mut images = vec![disk.clone()];
    let id = ctx.rng.bytes(16);
    let base = ctx.rng.bytes(16);
    let top = match kind {
        "EWF" => {
            let (f, first) = ewf::pack(&mut ctx.rng, &disk);
            files = f;
            first
        }
        "QCOW" | "VHD" | "VHDX" => {
            let under = ctx.rng.pick(&["base image", "\u{78c1}\u{76d8}.base", "b.vhd"]).to_string();
            if twice {
                let f = match kind {
                    "QCOW" => qcow::pack(&mut ctx.rng, &below, None),
                    "VHD" => vhd::pack(&mut ctx.rng, &below, &base, None),
                    _ => vhdx::pack(&mut ctx.rng, &below, &base, None),
                };
                files.insert(under.clone(), f);
                images.insert(0, below.clone());
            }
            let f = match kind {
                "QCOW" => qcow::pack(&mut ctx.rng, &disk, twice.then_some((under.as_str(), &below))),
                "VHD" => vhd::pack(&mut ctx.rng, &disk, &id, twice.then_some((base.as_slice(), under.as_str(), &below))),
                _ => vhdx::pack(&mut ctx.rng, &disk, &id, twice.then_some((base.as_slice(), under.as_str(), &below))),
            };
            files.insert("top disk".into(), f);
            "top disk".to_string()
        }
        _ => {
            let f = match kind {
                "SPARSEIMAGE" => sparse::pack(&mut ctx.rng, &disk),
                "UDIF" => udif::pack(&mut ctx.rng, &disk),
                _ => disk.clone(),
            };
            files.insert("d".into(), f);
            "d".to_string()
        }
    };
    let describe = format!("{} in {volumes} partitions in {kind} of {} bytes in {} layers", parts.iter().map(|p| format!("{:?}({} bytes)", file_system_of(p), p.size)).collect::<Vec<_>>().join(", "), disk.size, images.len());
    ctx.detail(describe.clone());
    if files.values().any(|f| f.size > 1 << 42) {
        ctx.count("images too large for a file");
        return None;
    }
    dir.put_all(&files);
    // what is there by construction, and what the first bytes say
    let expected_image: BTreeSet<&str> = if kind == "OS" { BTreeSet::new() } else { [kind].into() };
    let expected_volume: BTreeSet<&str> = if volumes.is_empty() { BTreeSet::new() } else { [volumes].into() };
    let clear = image_of(&files[&top]) == expected_image && volume_system_of(&disk) == expected_volume && file_system_of(&disk).len() < 2;
    let system = |p: &Media| -> Option<Vec<&'static str>> {
        let s = file_system_of(p);
        if s.len() > 1 { None } else { Some(s.into_iter().collect()) }
    };
    let partitions: Vec<Media> = parts.iter().zip(&places).map(|(p, (_, size))| {
        let mut p = p.clone();
        p.size = *size;
        p
    }).collect();
    let below_disk: Option<Vec<Node>> = if volumes.is_empty() {
        system(&disk).map(|s| s.iter().map(|k| node(k, root_path(k), vec![])).collect())
    } else {
        let v: Option<Vec<Node>> = partitions.iter().enumerate().map(|(i, p)| system(p).map(|s| node(volumes, &format!("/{}{}", volumes.to_lowercase(), i + 1), s.iter().map(|k| node(k, root_path(k), vec![])).collect()))).collect();
        v.map(|v| vec![node(volumes, "/", v)])
    };
    let tree = match below_disk {
        Some(n) if clear => Some(if kind == "OS" { n } else { vec![node(kind, "/", n)] }),
        _ => None,
    };
    Some(Stack { dir, describe, kind, volumes, files, top, images, disk, partitions, tree })
}

/// File systems in partitions in images in files.
pub fn nested(ctx: &mut Ctx) -> CaseResult {
    let Some(Stack { dir, describe, kind, volumes, files, top, images, disk, partitions, tree }) = stack(ctx, 1 << 40) else {
        return Ok(());
    };
    let os = new_os_vfs_location(&dir.path(&top));
    let got = scan(&os)?;
    if let Some(n) = tree {
        let tree = node("OS", &dir.path(&top), n);
        match got {
            Ok((g, chained)) => {
                require!(g == tree, "vfs:scan", "{describe}: observed {g:?}, expected {tree:?}");
                require!(chained, "vfs:scan parents", "{describe}: the locations of the nodes do not follow each other");
            }
            Err(e) => fail!("vfs:scan", "{describe}: {e}"),
        }
        ctx.count("scans");
        ctx.count(&format!("{} in {kind}", if volumes.is_empty() { "no partitions" } else { volumes }));
    } else {
        ctx.count("scans of what is not clear");
    }
    // layers, partitions and file systems
    let mut at = os.clone();
    if kind != "OS" {
        layers(ctx, kind, &os, &images)?;
        let t = vfs_type(kind);
        at = os.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", kind.to_lowercase(), images.len())));
    }
    if volumes.is_empty() {
        for k in file_system_of(&disk) {
            let t = vfs_type(k);
            file_system(ctx, k, &at.new_with_layer(&t, VfsPath::from_path(&t, root_path(k))), &disk)?;
        }
    } else {
        layers(ctx, volumes, &at, &partitions)?;
        let t = vfs_type(volumes);
        for (i, p) in partitions.iter().enumerate() {
            let l = at.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", volumes.to_lowercase(), i + 1)));
            for k in file_system_of(p) {
                let t = vfs_type(k);
                file_system(ctx, k, &l.new_with_layer(&t, VfsPath::from_path(&t, root_path(k))), p)?;
            }
        }
    }
    ctx.distinct_hash(files.values().fold(0, |h, m| h.rotate_left(3) ^ m.hash()));
    ctx.sample(|| describe.clone());
    Ok(())
}

/// The images of the other monitors, as files.
pub fn images(ctx: &mut Ctx) -> CaseResult {
    let dir = Scratch::new();
    let kind = *ctx.rng.pick(&["EWF", "QCOW", "QCOW", "SPARSEIMAGE", "UDIF", "VHD", "VHD", "VHDX", "volumes", "volumes"]);
    let mut files = Files::new();
    let mut parts: Vec<Media> = Vec::new();
    let mut kind_name = kind;
    let top = match kind {
        "EWF" => {
            let (f, n, c) = ewf::sample(&mut ctx.rng);
            files = f;
            parts.push(c);
            n
        }
        "QCOW" | "VHD" | "VHDX" => {
            let (f, n, c) = match kind {
                "QCOW" => qcow::sample(&mut ctx.rng),
                "VHD" => vhd::sample(&mut ctx.rng),
                _ => vhdx::sample(&mut ctx.rng),
            };
            files = f;
            parts = c;
            n
        }
        "volumes" => {
            let (k, d, p) = volume::sample(&mut ctx.rng);
            let m = Media::from_bytes(&d);
            for (at, n) in p {
                parts.push(Media::from_bytes(&m.get(at, n as usize)));
            }
            files.insert("disk".into(), m);
            kind_name = match k {
                "mbr" => "MBR",
                "gpt" => "GPT",
                "apm" => "APM",
                _ => return Ok(()),
            };
            "disk".into()
        }
        _ => {
            let (f, c) = if kind == "UDIF" { udif::sample(&mut ctx.rng) } else { sparse::sample(&mut ctx.rng) };
            files.insert("image".into(), f);
            parts.push(c);
            "image".into()
        }
    };
    let describe = format!("{kind_name} {top} of {} files with {} parts", files.len(), parts.len());
    ctx.detail(describe.clone());
    if files.values().any(|f| f.size > 1 << 42) {
        ctx.count("images too large for a file");
        return Ok(());
    }
    dir.put_all(&files);
    let os = new_os_vfs_location(&dir.path(&top));
    layers(ctx, kind_name, &os, &parts)?;
    ctx.distinct_hash(files.values().fold(0, |h, m| h.rotate_left(3) ^ m.hash()));
    ctx.sample(|| describe.clone());
    Ok(())
}

fn system_time(seconds: i64, nanos: u32) -> std::time::SystemTime {
    let d = Duration::new(seconds.unsigned_abs(), 0);
    let t = if seconds < 0 { UNIX_EPOCH - d } else { UNIX_EPOCH + d };
    t + Duration::new(0, nanos)
}

fn posix(seconds: i64, nanos: i64) -> Vec<DateTime> {
    let mut v = vec![DateTime::PosixTime64Ns(PosixTime64Ns::new(seconds, nanos as u32))];
    if nanos == 0 {
        if let Ok(s) = i32::try_from(seconds) {
            v.push(DateTime::PosixTime32(PosixTime32::new(s)));
        }
        if seconds == 0 {
            v.push(DateTime::NotSet);
        }
    }
    v
}

/// Entries of the operating system.
pub fn os(ctx: &mut Ctx) -> CaseResult {
    let dir = Scratch::new();
    let n = ctx.rng.size(20_000);
    let data = ctx.rng.data(n);
    let kind = *ctx.rng.pick(&["file", "file", "file", "directory", "named pipe", "socket", "character device", "link to a file", "link to a directory", "dangling link", "nothing"]);
    let name = *ctx.rng.pick(&["a", "A name.txt", "n\u{00b0} \u{78c1}", ".hidden", "x..y", "\u{1f600}", "con:1"]);
    let at = dir.0.join(name);
    let mut expected = kind;
    let mut path = at.clone();
    let mut keep: Option<std::os::unix::net::UnixListener> = None;
    match kind {
        "file" => fs::write(&at, &data).unwrap(),
        "directory" => fs::create_dir(&at).unwrap(),
        "named pipe" => {
            let s = std::process::Command::new("mkfifo").arg(&at).status();
            if !s.is_ok_and(|s| s.success()) {
                return Ok(());
            }
        }
        "socket" => match std::os::unix::net::UnixListener::bind(&at) {
            Ok(l) => keep = Some(l),
            Err(_) => return Ok(()),
        },
        "character device" => path = PathBuf::from("/dev/null"),
        "link to a file" => {
            fs::write(dir.0.join("target of the link"), &data).unwrap();
            std::os::unix::fs::symlink("target of the link", &at).unwrap();
            expected = "file";
        }
        "link to a directory" => {
            std::os::unix::fs::symlink(".", &at).unwrap();
            expected = "directory";
        }
        "dangling link" => {
            std::os::unix::fs::symlink("no such target", &at).unwrap();
            expected = "nothing";
        }
        _ => {}
    }
    if kind == "file" || kind == "directory" {
        let pick = |ctx: &mut Ctx| {
            let s = match ctx.rng.below(6) {
                0 => 0,
                1 => ctx.rng.below(1 << 31) as i64,
                2 => (1 << 31) + ctx.rng.below(1 << 33) as i64,
                3 => -(ctx.rng.below(1 << 31) as i64),
                4 => *ctx.rng.pick(&[-1, 1, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, u32::MAX as i64, u32::MAX as i64 + 1]),
                _ => 1_700_000_000,
            };
            system_time(s, if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.below(1_000_000_000) as u32 })
        };
        let times = fs::FileTimes::new().set_accessed(pick(ctx)).set_modified(pick(ctx));
        let _ = fs::File::open(&at).and_then(|f| f.set_times(times));
    }
    let describe = format!("{kind} {}", path.display());
    ctx.detail(describe.clone());
    let location = new_os_vfs_location(path.to_str().unwrap());
    let r = VfsResolver::current();
    let fs_ = match no_panic("vfs:os", || r.open_file_system(&location))? {
        Ok(f) => f,
        Err(e) => fail!("vfs:os", "{}", e.to_string()),
    };
    match no_panic("vfs:os", || fs_.file_entry_exists(location.get_path()))? {
        Ok(b) => require_eq!(b, expected != "nothing", "vfs:os exists", "{describe}"),
        Err(e) => fail!("vfs:os exists", "{describe}: {}", e.to_string()),
    }
    let found = match no_panic("vfs:os", || r.get_file_entry_by_location(&location))? {
        Ok(f) => f,
        Err(e) => fail!("vfs:os entry", "{describe}: {}", e.to_string()),
    };
    let mut e = match found {
        Some(e) => e,
        None => {
            require_eq!(expected, "nothing", "vfs:os entry", "{describe} was not found");
            require!(scan(&location)?.is_err(), "vfs:os scan", "{describe}: a scan of nothing");
            ctx.count("missing files");
            return Ok(());
        }
    };
    require!(expected != "nothing", "vfs:os entry", "{describe} was found");
    // what the operating system says
    let m = fs::metadata(&path).unwrap();
    require_eq!(kind_name(&e.get_file_type()), expected, "vfs:os type", "{describe}");
    require_eq!(e.get_name().map(|n| n.to_string()), path.file_name().map(|n| n.to_str().unwrap().to_string()), "vfs:os name", "{describe}");
    for (what, got, s, ns) in [("access", e.get_access_time(), m.atime(), m.atime_nsec()), ("change", e.get_change_time(), m.ctime(), m.ctime_nsec()), ("modification", e.get_modification_time(), m.mtime(), m.mtime_nsec())] {
        if kind == "character device" {
            continue;
        }
        let want = posix(s, ns);
        require!(got.is_some_and(|g| want.contains(g)), "vfs:os times", "{describe}: {what} time {got:?} of {s} seconds and {ns} nanoseconds");
    }
    if let (Ok(t), true) = (m.created(), kind != "character device") {
        let d = t.duration_since(UNIX_EPOCH).unwrap_or_default();
        let want = posix(d.as_secs() as i64, d.subsec_nanos() as i64);
        require!(e.get_creation_time().is_some_and(|g| want.contains(g)), "vfs:os times", "{describe}: creation time {:?}, expected {d:?}", e.get_creation_time());
    }
    let i = match no_panic("vfs:os entry", || (e.get_number_of_data_forks(), e.get_size(), e.get_symbolic_link_target()))? {
        (Ok(n), s, Ok(l)) => (n, s, l),
        _ => fail!("vfs:os entry", "{describe}: forks or link"),
    };
    require_eq!((i.0, i.2.is_some()), (usize::from(expected == "file"), false), "vfs:os entry", "{describe}: forks and link");
    let s = match no_panic("vfs:os data", || e.get_data_stream())? {
        Ok(s) => s,
        Err(e) => fail!("vfs:os data", "{describe}: {}", e.to_string()),
    };
    require_eq!(s.is_some(), expected == "file", "vfs:os data", "{describe}");
    if let Some(s) = s {
        require_eq!(i.1, data.len() as u64, "vfs:os size", "{describe}");
        drive(ctx, "vfs:os data", &s, &Media::from_bytes(&data), 10, 9000)?;
        let f = match no_panic("vfs:os data", || e.get_data_fork_by_index(0).and_then(|f| f.get_data_stream()))? {
            Ok(f) => f,
            Err(e) => fail!("vfs:os data", "{describe}: {}", e.to_string()),
        };
        same_data(ctx, &describe, &f, &s)?;
        require!(no_panic("vfs:os data", || e.get_data_fork_by_index(1).is_err())?, "vfs:os data", "{describe}: a second fork");
        let scanned = scan(&location)?;
        let m = Media::from_bytes(&data);
        if image_of(&m).is_empty() && volume_system_of(&m).is_empty() && file_system_of(&m).is_empty() {
            match scanned {
                Ok((n, _)) => require!(n == node("OS", path.to_str().unwrap(), vec![]), "vfs:os scan", "{describe}: {n:?}"),
                Err(e) => fail!("vfs:os scan", "{describe}: {e}"),
            }
        }
    } else {
        let refused = expected != "character device";
        if refused {
            require!(scan(&location)?.is_err(), "vfs:os scan", "{describe}: a scan of what is no file");
        }
    }
    drop(keep);
    ctx.count(&format!("{kind} of the operating system"));
    ctx.distinct(describe.as_bytes());
    Ok(())
}
