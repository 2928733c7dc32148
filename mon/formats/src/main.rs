mod ewf;
mod ext;
mod fat;
mod hostile;
mod media;
mod ntfs;
mod qcow;
mod sparse;
mod tools;
mod udif;
mod vfs;
mod vhd;
mod vhdx;
mod volume;

use mon_common::{CaseResult, Ctx, Property, Section};

fn p(id: &'static str, rule: &'static str, must: &'static [&'static str], sections: Vec<Section>) -> Property {
    Property {
        id,
        level: "exploration",
        rule,
        assumptions: &["the image builders of the monitors follow the published format descriptions"],
        sections,
        must_observe: must,
        case_cpu_limit: 120,
    }
}

fn s(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx) -> CaseResult) -> Section {
    Section { name, quick, thorough, run }
}

fn main() {
    mon_common::main_with(vec![
        p("C23", "disks with distinct partition tables whose partitions were listed and read back",
            &["primary partitions", "chains of extended boot records", "boot records without signature refused", "sector sizes told from the disk"],
            vec![s("mbr", 60_000, 2_000_000, volume::mbr_case)]),
        p("C24", "disks with distinct partition tables whose partitions were listed and read back",
            &["GPT partitions", "damaged GPT header refused", "damaged GPT entries refused", "APM partitions", "damaged APM entries refused"],
            vec![s("gpt", 30_000, 1_000_000, volume::gpt_case), s("apm", 30_000, 1_000_000, volume::apm_case)]),
        p("C25", "damaged disks with distinct content", &["damaged images opened", "damaged images refused", "damaged images read with debug output"],
            vec![s("hostile", 150_000, 6_000_000, volume::hostile)]),
        p("C26", "images with distinct content that were read and compared",
            &["sparse images", "bands out of range refused", "sparse bundles"],
            vec![s("sparseimage", 20_000, 200_000, sparse::image_case), s("sparsebundle", 20_000, 200_000, sparse::bundle_case)]),
        p("C27", "chains of VHD files with distinct content whose layers were read and compared",
            &["fixed disks", "dynamic disks", "differential disks", "wrong parents refused"],
            vec![s("vhd", 20_000, 200_000, vhd::case)]),
        p("C28", "chains of VHDX files with distinct content whose layers were read and compared",
            &["fixed disks", "dynamic disks", "differential disks", "disks of more than one chunk", "wrong parents refused", "damaged headers and region tables"],
            vec![s("vhdx", 5_000, 250_000, vhdx::case)]),
        p("C29", "chains of QCOW files with distinct content whose layers were read and compared",
            &["version 1 files", "version 2 files", "version 3 files", "wrong backing files refused", "encrypted disks refused", "compressed clusters refused"],
            vec![s("qcow", 20_000, 1_000_000, qcow::case)]),
        p("C30", "images with distinct content that were read and compared",
            &["ADC images", "bzip2 images", "LZFSE images", "zlib images", "images without plist", "images of more chunks than are kept", "ranges with the data of another one", "contradicting tables refused"],
            vec![s("udif", 4_000, 200_000, udif::case)]),
        p("C31", "images with distinct content that were read and compared",
            &["SMART images", "images after the original description", "EnCase 1 images", "EnCase 2 to 5 images", "EnCase 6 images", "images of one segment", "images of 17 to 99 segments", "images of 100 to 775 segments", "images of more than 775 segments", "tables with offsets beyond 2 GiB", "date values", "damaged or incomplete images refused", "damaged chunks refused"],
            vec![s("ewf", 3_000, 150_000, ewf::case)]),
        p("C32", "damaged images with distinct content", &["damaged images opened", "damaged images refused", "damaged images read with debug output"],
            vec![s("vhd", 20_000, 500_000, vhd::hostile), s("vhdx", 10_000, 500_000, vhdx::hostile), s("qcow", 20_000, 1_000_000, qcow::hostile), s("sparse", 40_000, 1_000_000, sparse::hostile), s("udif", 20_000, 1_000_000, udif::hostile), s("ewf", 6_000, 500_000, ewf::hostile)]),
        p("C33", "file systems with distinct content that were listed and read",
            &["FAT-12 file systems", "FAT-16 file systems", "FAT-32 file systems", "fragmented files", "clusters beyond 65535", "files read", "file entries by path", "file entries by identifier", "missing names not found"],
            vec![s("fat", 12_000, 400_000, fat::case)]),
        p("C34", "file systems with distinct content that were listed and read",
            &["ext2 file systems", "ext3 file systems", "ext4 file systems", "file systems of the first revision", "triple indirect blocks", "extent trees of depth 2", "unwritten extents", "hashed directories", "files in the inode", "files of 4 GiB and larger", "blocks beyond 32 bits", "inode tables beyond 32 bits", "file entries by path", "file entries by identifier", "missing names not found", "damaged inodes refused", "damaged superblocks and group descriptors refused"],
            vec![s("ext", 4_000, 150_000, ext::case)]),
        p("C35", "file systems with distinct content that were listed and read",
            &["NTFS 1.2 file systems", "NTFS 3.1 file systems", "attribute lists", "attributes in more than one record", "attribute lists of more than one cluster", "attribute lists outside of the record", "compressed compression units", "last compression units that are cut", "overlay filter data", "LZX chunks", "sparse data of more than 1 TiB", "data beyond the valid size", "runs that go back", "directories with nodes of nodes", "nodes of directories smaller than a cluster", "nodes of directories over more than one run", "case-sensitive directories", "short names", "junctions", "symbolic links", "deleted files", "named data streams", "master file tables in pieces", "master file tables with an attribute list", "file entries by path", "file entries by identifier", "missing names not found", "names in another spelling"],
            vec![s("ntfs", 3_000, 150_000, ntfs::case)]),
        p("C36", "damaged file systems with distinct content", &["damaged images opened", "damaged images refused", "damaged images read with debug output"],
            vec![s("fat", 20_000, 800_000, fat::hostile), s("ext", 10_000, 500_000, ext::hostile), s("ntfs", 10_000, 500_000, ntfs::hostile)]),
        p("C38", "files with distinct content that were opened, scanned and listed through the virtual file system",
            &["scans", "EXT file systems", "FAT file systems", "NTFS file systems", "EWF entries", "QCOW entries", "SPARSEIMAGE entries", "UDIF entries", "VHD entries", "VHDX entries", "APM entries", "GPT entries", "MBR entries", "symbolic links", "file entries by path", "missing names not found", "layers and partitions by path", "file of the operating system", "missing files"],
            vec![s("nested", 2_000, 100_000, vfs::nested), s("images", 1_500, 80_000, vfs::images), s("os", 2_000, 50_000, vfs::os)]),
        p("C39", "files with distinct content of which the output of the tools was compared",
            &["hierarchies of layers", "digests of data streams", "digests of files without a known format", "bodyfiles", "named data streams in bodyfiles", "exported data streams", "exported named data streams", "missing files that are not exported", "hierarchies of file systems", "entries by path", "entries by identifier", "file systems at an offset", "digests of EWF images", "digests of UDIF images", "digests of SPARSEIMAGE images", "digests of QCOW images", "digests of VHD images", "digests of VHDX images", "images with several layers", "information of apm partition tables", "information of gpt partition tables", "information of mbr partition tables", "information of VHDX images", "damaged files shown", "damaged files refused", "stored digests", "digests of standard input"],
            vec![s("stacks", 1_500, 60_000, tools::stacks), s("images", 600, 30_000, tools::images), s("input", 400, 20_000, tools::input), s("hostile", 600, 60_000, tools::hostile)]),
    ]);
}
