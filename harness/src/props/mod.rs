use crate::ctx::{Ctx, Tier};
use std::collections::BTreeMap;
use std::path::Path;

pub mod common;
pub mod conc;
pub mod crash;
pub mod held;
pub mod hostile;
pub mod ids;
pub mod leak;
pub mod lookup;
pub mod objs;
pub mod open;
pub mod pack;
pub mod readfault;
pub mod refconc;
pub mod refs;
pub mod show;
pub mod side;
pub mod stress;
pub mod write;

#[derive(Default)]
pub struct ExtraResult {
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub trouble: Vec<String>,
}

/// Work done beside the cases, by other binaries.
pub trait ExtraRun {
    fn finish(self: Box<Self>, stopped: bool) -> ExtraResult;
}
pub struct NoExtra;
impl ExtraRun for NoExtra {
    fn finish(self: Box<Self>, _: bool) -> ExtraResult {
        ExtraResult::default()
    }
}
pub fn no_extra(_: Tier, _: &Path, _: &Path, _: u64) -> Box<dyn ExtraRun> {
    Box::new(NoExtra)
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub max_workers: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// monitor counters that must not stay at zero
    pub must_see: &'static [&'static str],
    pub case: fn(&mut Ctx),
    pub extra: fn(Tier, &Path, &Path, u64) -> Box<dyn ExtraRun>,
}

impl Prop {
    pub fn min_evals(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick / 4,
            Tier::Thorough => self.quick / 4,
        }
    }
}

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: "exploration",
        quick: 16000,
        thorough: 200_000,
        max_workers: 8,
        rule: "A case is a seeded history of writes, re-writes and reads of generated objects (all kinds, 0 bytes to several MB, \
               compressible or not, ids sharing a fan-out directory) over several handles; distinct by content, non-trivial when the \
               object was written and read back at least once through two handles; every 16th case is re-read by git.",
        assumptions: &["own SHA-1 and zlib decoder agree with git (cross-checked in the same run)"],
        must_see: &["writes", "rewrites", "reads_fresh_handle", "git_objects_checked", "packed_between", "packs_pruned", "loose_pruned", "objects_directory_replaced", "scattered"],
        case: write::c01,
        extra: no_extra,
    },
    Prop {
        id: "C02",
        level: "exploration",
        quick: 1400,
        thorough: 40_000,
        max_workers: 8,
        rule: "An evaluation is one schedule: a reader or writer run whole inside one system call of a writer (every call, every actor kind; \
               two levels deep for write-in-write-read), or two to four threads stepped at system-call granularity by a seeded scheduler, or \
               several processes writing at once; distinct by (scenario, placement or step sequence).",
        assumptions: &["preemption matters only at system calls: the write path shares no memory between threads (ThreadSanitizer run of C18)"],
        must_see: &["nested_placements", "scheduled_runs", "process_runs", "reads_during_write", "crowds"],
        case: conc::c02,
        extra: no_extra,
    },
    Prop {
        id: "C03",
        level: "fault_enumeration",
        quick: 260,
        thorough: 6000,
        max_workers: 8,
        rule: "An evaluation is one execution of a write with one fault: a process crash before / after / part-way through one of its system calls \
               (every call is enumerated), or an errno returned by one call (every call x errno list, once and sticky), or a short write; \
               distinct by (scenario, call, fault).",
        assumptions: &["a crash loses no completed system call (process crash, not power loss)"],
        must_see: &["crash_points", "error_points", "short_writes", "retries_ok", "retries_same_handle", "second_attempts_failing"],
        case: crash::c03,
        extra: no_extra,
    },
    Prop {
        id: "C04",
        level: "exploration",
        quick: 2600,
        thorough: 120_000,
        max_workers: 8,
        rule: "A case is one or more packs built by the harness' own builder (whole, offset-delta and reference-delta entries in chains, index \
               version 1/2, 64-bit offsets) or by git, read completely in seeded orders with repeats on fresh and shared handles; distinct by \
               pack id, non-trivial when it holds at least one delta.",
        assumptions: &["pack builder agrees with git (git index-pack re-reads a share of the packs in the same run)"],
        must_see: &["delta_reads", "chain_reads", "idx_v1_packs", "large_offset_packs", "git_made_objects", "git_verified_packs"],
        case: pack::c04,
        extra: no_extra,
    },
    Prop {
        id: "C05",
        level: "exploration",
        quick: 9000,
        thorough: 120_000,
        max_workers: 8,
        rule: "A case is a seeded history of add-loose / add-pack / write / duplicate / open-handle / read-present / read-absent / prune steps against a \
               set model, or rounds of commits tended by git (repack in ten ways, midx, cruft packs, bitmaps, gc, prune) against what git lists; distinct by \
               history, non-trivial when objects were found in at least two places.",
        assumptions: &["packs are removed while a handle is open only where git does it, after their objects are elsewhere"],
        must_see: &["reads_loose", "reads_packed", "reads_both", "reads_absent", "reads_after_late_pack", "no_pack_dir", "packs_named_otherwise", "frozen_times", "many_packs", "reads_after_prune", "reads_after_prune_packed", "empty_packs", "tended", "reads_tended", "scattered"],
        case: lookup::c05,
        extra: no_extra,
    },
    Prop {
        id: "C06",
        level: "exploration",
        quick: 1600,
        thorough: 12_000,
        max_workers: 8,
        rule: "An evaluation is one read with the steps of one repack placed at chosen system calls of the read (all placements at one and two \
               points, then seeded monotone placements); distinct by (scenario, placement).",
        assumptions: &["a repack adds the new pack and its index before it deletes anything, as git does"],
        must_see: &["placements", "steps_inside_reads", "git_repacks"],
        case: lookup::c06,
        extra: no_extra,
    },
    Prop {
        id: "C07",
        level: "exploration",
        quick: 400,
        thorough: 20_000,
        max_workers: 8,
        rule: "An evaluation is one damaged repository file on which every read, parse, peel, enumeration, accessor and Debug call ran under the \
               panic, abort, hang, system-call and allocation monitors; distinct by content of the damaged file.",
        assumptions: &["1/16 GB live allocation per call counts as out of proportion for repositories below 1 MB"],
        must_see: &["damaged_files", "ops", "calls_ok", "calls_err"],
        case: hostile::c07,
        extra: stress::asan_extra,
    },
    Prop {
        id: "C08",
        level: "exploration",
        quick: 800,
        thorough: 20_000,
        max_workers: 8,
        rule: "An evaluation is one read of an object whose stored data was altered at one layer (file bytes, zlib stream, object header, entry \
               header, delta stream, chain); distinct by altered file and id, non-trivial when the reference decoder calls it undecodable or \
               gives other content than before.",
        assumptions: &["reference decoder is strict; oddities that lose no data (bytes after the stream, leading zeros) may be accepted or refused"],
        must_see: &["damaged_reads", "must_fail", "still_decodes", "delta_damage", "loose_damage"],
        case: hostile::c08,
        extra: no_extra,
    },
    Prop {
        id: "C09",
        level: "exploration",
        quick: 8000,
        thorough: 60_000,
        max_workers: 8,
        rule: "A case is a repository with intact packs and loose objects next to one damaged pack or index; every object is read on fresh and warm \
               handles in seeded order; distinct by damage and layout.",
        assumptions: &[],
        must_see: &["intact_reads", "damaged_only_reads", "damages", "two_copies_certain", "unusable_pack_directories"],
        case: hostile::c09,
        extra: no_extra,
    },
    Prop {
        id: "C10",
        level: "exploration",
        quick: 24_000,
        thorough: 800_000,
        max_workers: 8,
        rule: "A case is one commit generated field by field as git writes it (or made by git), stored loose or packed, and read back; distinct by \
               content, non-trivial when it has parents, extra headers, an encoding or non-ASCII bytes.",
        assumptions: &["generated commits are what git writes (git hash-object and git log re-read a share of them in the same run)"],
        must_see: &["commits", "commits_with_several_authors", "with_encoding", "with_signature", "git_checked", "git_made"],
        case: objs::c10,
        extra: no_extra,
    },
    Prop {
        id: "C11",
        level: "exploration",
        quick: 24_000,
        thorough: 800_000,
        max_workers: 8,
        rule: "A case is one identity line placed as author, committer or tagger; names and emails over all byte values; distinct by line.",
        assumptions: &["git strips the same leading and trailing characters as the generator (checked against git itself)"],
        must_see: &["identities", "non_utf8", "digit_start", "without_time", "without_zone", "git_checked"],
        case: objs::c11,
        extra: no_extra,
    },
    Prop {
        id: "C12",
        level: "exploration",
        quick: 40_000,
        thorough: 600_000,
        max_workers: 8,
        rule: "A case is one tag object generated field by field (or made by git) and read back; distinct by content.",
        assumptions: &["generated tags are what git writes (git mktag/hash-object accepts a share of them in the same run)"],
        must_see: &["tags", "without_tagger", "git_checked"],
        case: objs::c12,
        extra: no_extra,
    },
    Prop {
        id: "C13",
        level: "exploration",
        quick: 12_000,
        thorough: 400_000,
        max_workers: 8,
        rule: "A case is one tree generated entry by entry (or made by git mktree), read back loose or packed, and read again cut at other lengths; \
               distinct by content.",
        assumptions: &[],
        must_see: &["trees", "entries", "cut_trees", "git_checked"],
        case: objs::c13,
        extra: no_extra,
    },
    Prop {
        id: "C14",
        level: "exploration",
        quick: 24_000,
        thorough: 900_000,
        max_workers: 8,
        rule: "A case is a generated reference store (direct, symbolic, chains, cycles, dangling, packed) with lookups and peels of present and \
               missing names, again after rounds of changes under the open handle, or a repository that git's own commands change; distinct by store, non-trivial when a symbolic chain was peeled.",
        assumptions: &["own resolver agrees with git rev-parse (cross-checked on a share of the stores in the same run)"],
        must_see: &["lookups", "peels", "symbolic_peels", "missing_names", "bad_chains", "broken_refs", "parsed_directly", "strange_names", "changes", "git_checked", "git_commands", "too_long_names", "scattered"],
        case: refs::c14,
        extra: no_extra,
    },
    Prop {
        id: "C15",
        level: "exploration",
        quick: 24_000,
        thorough: 1_200_000,
        max_workers: 8,
        rule: "A case is a generated reference store (nesting, missing namespaces, lock files, empty directories, packed references) whose three \
               lists and whole list are compared with the model, again after rounds of changes, or a repository that git's own commands change; distinct by store.",
        assumptions: &["model agrees with git for-each-ref (cross-checked on a share of the stores in the same run)"],
        must_see: &["listings", "names", "missing_namespaces", "strange_names", "leading_nowhere", "changes", "git_checked", "git_commands", "scattered"],
        case: refs::c15,
        extra: no_extra,
    },
    Prop {
        id: "C16",
        level: "exploration",
        quick: 36_000,
        thorough: 2_000_000,
        max_workers: 8,
        rule: "A case is one hostile reference name or symbolic target (absolute, climbing, disguised) looked up and peeled while every opened path is \
               recorded, with valid references planted outside the git directory as bait; distinct by name.",
        assumptions: &["the scratch repository holds no file-system symbolic links"],
        must_see: &["lookups", "escape_attempts", "opens_recorded"],
        case: refs::c16,
        extra: no_extra,
    },
    Prop {
        id: "C17",
        level: "exploration",
        quick: 100_000,
        thorough: 6_000_000,
        max_workers: 8,
        rule: "A case is a set of ids and abbreviations (random, neighbouring, boundary bytes, malformed strings) checked against a byte-level model; \
               distinct by id set.",
        assumptions: &[],
        must_see: &["ids", "malformed", "short_compares", "searches"],
        case: ids::c17,
        extra: no_extra,
    },
    Prop {
        id: "C18",
        level: "exploration",
        quick: 360,
        thorough: 12_000,
        max_workers: 4,
        rule: "An evaluation is one multi-threaded run on a shared handle: stepped at system-call granularity by a seeded scheduler or free-running; \
               distinct by step sequence; a ThreadSanitizer build runs the same workload beside it.",
        assumptions: &["ThreadSanitizer sees the races of the executions it ran; std is instrumented too (-Zbuild-std)"],
        must_see: &["scheduled_runs", "free_runs", "reads", "tsan_reads"],
        case: conc::c18,
        extra: stress::tsan_extra,
    },
    Prop {
        id: "C19",
        level: "fault_enumeration",
        quick: 1000,
        thorough: 6000,
        max_workers: 8,
        rule: "An evaluation is one read-side call with one fault: one of its system calls fails with one errno (every call x errno list, cold and warm \
               handle), or reads are cut short or interrupted in a pattern; distinct by (scenario, call, fault).",
        assumptions: &["EINTR is injected into read(2) only, where callers are expected to retry"],
        must_see: &["error_points", "short_read_runs", "eintr_runs", "recoveries"],
        case: readfault::c19,
        extra: no_extra,
    },
    Prop {
        id: "C20",
        level: "exploration",
        quick: 14400,
        thorough: 300_000,
        max_workers: 8,
        rule: "A case is a mixed workload of every public call on one repository with a full snapshot (path, type, size, mode, mtime, inode, content) \
               before and after each call and a log of its system calls; distinct by workload.",
        assumptions: &["access times are left out"],
        must_see: &["snapshots", "read_calls", "write_calls", "events_logged", "leftovers_beside", "damaged_repositories"],
        case: side::c20,
        extra: no_extra,
    },
    Prop {
        id: "C21",
        level: "exploration",
        quick: 6000,
        thorough: 60_000,
        max_workers: 8,
        rule: "An evaluation is one lookup-and-peel or one listing with the file-system steps of one to three reference changes (update, pack-refs, \
               delete, rename, HEAD switch, with the objects stored first) placed at its system calls; distinct by history and placement, \
               non-trivial when at least one step fell inside the call.",
        assumptions: &["references change by the steps git's files backend takes, in its order"],
        must_see: &["placements", "steps_inside_calls", "listings", "peels", "settled_reads", "git_runs", "reads_beside_git"],
        case: refconc::c21,
        extra: no_extra,
    },
    Prop {
        id: "C22",
        level: "exploration",
        quick: 1600,
        thorough: 12_000,
        max_workers: 8,
        rule: "An evaluation is one long-lived handle on which the same 25 to 60 steps (reads, lookups, lists, writes, abandoned readers, other handles, \
               never-asked absent ids, system-call faults, objects and references that come and go, every third repository damaged) run for 64 rounds; open files, mappings, threads, files on \
               disk and live heap are sampled after 4, 8, 16, 32 and 64 rounds; distinct by steps.",
        assumptions: &["what grows at every doubling of the rounds grows without end; a cache bounded by the repository stops growing"],
        must_see: &["calls", "rounds", "faulted_steps", "damaged_repositories", "changing_steps", "samples", "held_while_open"],
        case: leak::c22,
        extra: no_extra,
    },
    Prop {
        id: "C23",
        level: "exploration",
        quick: 1600,
        thorough: 40_000,
        max_workers: 8,
        rule: "An evaluation is one Repository::open of one kind of path (about 30 kinds, absolute or relative, inside other repositories, hostile \
               environment) followed by reads that only the right repository can answer, or one interleaved history over two to four repositories \
               that share ids and names; distinct by path or history.",
        assumptions: &["stat(2) of <path>/.git decides what is there"],
        must_see: &["opens", "found", "refused", "relative_paths", "faulted_opens", "foreign_reads", "answers_checked", "hollow_repositories", "side_by_side", "writes", "added_by_others", "git_checked"],
        case: open::c23,
        extra: no_extra,
    },
    Prop {
        id: "C24",
        level: "exploration",
        quick: 4800,
        thorough: 100_000,
        max_workers: 8,
        rule: "An evaluation is one history of up to 200 steps with up to ten readers and ten parsed objects held at a time: open, read by buffers of \
               any size and every method of Read, drop, parse, look again (also from another thread), write, look up missing ids, repack and remove \
               what is being read, drop the handle; distinct by history, non-trivial when two readers were open at once.",
        assumptions: &["an opened file stays readable after it is unlinked"],
        must_see: &["readers", "reads", "reads_after_end", "objects_kept", "objects_rechecked", "repacks", "handles_dropped", "readers_finished"],
        case: held::c24,
        extra: no_extra,
    },
    Prop {
        id: "C25",
        level: "exploration",
        quick: 2400,
        thorough: 100_000,
        max_workers: 8,
        rule: "A case is a repository of about seven objects of all kinds and up to eight references, each shown as debug text (also of a copy), with \
               the errors for a missing and a damaged object; in every sixth the two example programs run in it; distinct by object, non-trivial \
               when the object has fields.",
        assumptions: &["the accessors are right (C10-C14)"],
        must_see: &["objects_shown", "fields_shown", "references_shown", "errors_shown", "programs_run", "peels_to_nothing"],
        case: show::c25,
        extra: no_extra,
    },
];

pub fn selftest() -> i32 {
    common::selftest()
}
