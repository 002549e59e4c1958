//! What each check's cases are, in words, for the evidence.
pub const ASSUMPTIONS: [&str; 4] = [
    "the reference model in /verif/harness/refmodel, written from the class file format, is right about which inputs are well-formed and what they denote",
    "executions in the builds of this sandbox (x86-64 Linux, debug assertions and overflow checks on) stand for other builds",
    "only the inputs, schedules and histories that were run have been observed",
    "std's allocator interface reports every heap request that safe code makes",
];

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "an input is parsed with bytecode on and off on a 2 MiB stack and everything a caller can do is done with the result; distinct: different bytes. Made by: hostile families, damaged generated classes, damaged JDK classes, random text as class names",
        "C02" => "an input is parsed under a counting allocator; judged: peak, largest request, and bytes and blocks still held afterwards; distinct: different bytes",
        "C17" => "Miri and ThreadSanitizer watch threads that share small classes; an input is parsed in both builds and digests of everything reported compared; classes are shared between threads that iterate, read, format and drop, each compared with what one thread saw; non-trivial: its constant pool has entries; distinct: different bytes or schedule seed",
        "C18" => "an input is parsed several times in different places, threads, histories and processes and everything reported, error text and debug text included, compared; non-trivial: longer than the magic number; distinct: different bytes",
        "C14" => "a text is put where a descriptor or class name is parsed and the verdict and parsed form compared with the grammar; or a class is generated around it; distinct: different bytes of the class with a constant pool that was read",
        _ => "an input is made (generated well-formed class, single change to one, directed case, real JDK class) and everything cafebabe reports about it, or its refusal, is compared with the reference model; non-trivial: its constant pool has entries that were read; distinct: different bytes or option",
    }
}
