//! Simulation scenarios for bongo. Instrumented like the library itself.
mod forest;
mod gram;
mod layout;
mod making;
mod parse;
mod passes;
mod print;
mod states;
mod stream;
mod tables;
mod text;
mod typemap;
mod types;

use simcore::arena::SimAlloc;
use simcore::orch::{Check, Scenario, Table};

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const FOREST_RULE: &str = "Each run: a seeded mix of forest operations over 1-5 threads on 1-3 forests (some built where a dropped one was; some runs with hundreds of nodes or alternatives), a seeded scheduler deciding every preemption (at any compiled basic block, allocation, callback or lock operation), every wake-up order, stalls, spurious wake-ups, memory placement and injected panics. Non-trivial: at least one preemption, block, spurious wake-up or injected fault happened; distinct by the hash of all scheduling and fault decisions and results.";
const FOREST_REAL: &str = "bongo::parsers::tree (TreeOwner, TreeHandle, Node, Alternative, Leaf, Branch, DOT printer), bongo::utils change tracking, im::Vector, std RwLock/Arc/BTreeMap as compiled";
const FOREST_STUB: &str = "the kernel's futex, clocks, randomness and thread scheduler; the memory allocator; the caller's kind/value/action types and child iterators";

const PARSE_RULE: &str = "Each run: 1-3 seeded grammars (random or classic: nullable, recursive, cyclic, ambiguous), 1-4 threads parsing seeded token sequences (sentences, damaged sentences, noise; some long) with parsers replaced in place, into 1-2 shared forests under a seeded scheduler, with logging switched on and off, memory placement by seed and, for C10, panics injected into the caller's comparison, clone, debug and logger code with parses repeated. Non-trivial: at least one preemption, block, spurious wake-up or injected fault happened; distinct by the hash of all scheduling and fault decisions and results.";
const PARSE_REAL: &str = "bongo::grammar builder, bongo::start_grammar, bongo::state::ProdState, bongo::parsers::earley and its state sets, bongo::parsers::tree, im::Vector, std RwLock/BTreeMap as compiled";
const PARSE_STUB: &str = "the kernel's futex, clocks, randomness and thread scheduler; the memory allocator; the caller's terminal/nonterminal/action/value types; the logger behind log::trace";

const PASS_RULE: &str = "Each run: 1-32 user-defined analyses (up to 160 in some runs) with a seeded dependency graph (chains, sharing, cycles; failures passed on, tolerated, caught, retried, or asked for in another context) requested in a seeded order in 1-3 contexts, with errors and panics injected at seeded points of any computation, contexts replaced at the same address, in 1-2 threads. Distinct by the hash of all scheduling and fault decisions and results.";
const BUILTIN_RULE: &str = "Each run: the built-in analyses and dependent ones requested in a seeded order over 1-3 seeded grammars, with panics injected at seeded calls of the caller's comparison and clone code, in 1-2 threads, grammars built where others were, interrupted requests repeated, every answer compared with definitions evaluated independently. Distinct by the hash of all scheduling and fault decisions and results.";
const PASS_REAL: &str = "bongo::grammar::passes (PassContext, Nullable, Firsts, Follows), bongo::grammar builder and grammar, bongo::utils collecting maps";
const PASS_STUB: &str = "the memory allocator; the caller's terminal/nonterminal/action/value types; user-defined analyses (scripts)";

const STREAM_RULE: &str = "Each run: 1-4 threads reading, re-reading, cloning, sharing, draining and dropping positions of seeded token streams of 0-20 tokens under a seeded scheduler, with panics injected into the caller's clone code and source iterator; at the end every reader left is read to its end. Non-trivial: at least one preemption, block, spurious wake-up or injected fault happened; distinct by the hash of all scheduling and fault decisions and results.";
const STREAM_REAL: &str = "bongo::parsers::VecTokenStream, Token, std Arc as compiled";
const STREAM_STUB: &str = "the kernel's futex, clocks, randomness and thread scheduler; the memory allocator; the caller's kind and value types and source iterator";

const FIX_RULE: &str = "Each run: a seeded monotone step system over 1-12 keys and up to 8 value bits (chains, cycles, self-loops, gated steps), computed 1-4 times from the start, from a finished table or from one with additions, with panics injected into the caller's step, merge, comparison and clone code and the computation repeated on what is left until it ends; tables compared with an independently computed least solution at every interruption and at the end. Distinct by the hash of all fault decisions and steps.";
const FIX_REAL: &str = "bongo::utils::{apply_fixed_point, change_loop, change_iter, fixed_point, WasChanged}, std BTreeMap as compiled";
const FIX_STUB: &str = "the memory allocator; the caller's key type, step and merge functions";

const MAP_RULE: &str = "Each run: a seeded history of 2-30 inserts, bulk inserts, copies between keys, lookups and rebuilds of a collecting map, with panics injected into the caller's comparison and clone code and source iterators; contents and change answers compared with a model after every operation. Distinct by the hash of all fault decisions and steps.";
const MAP_REAL: &str = "bongo::utils::{CollectMap, merge_value_pairs, change_iter, WasChanged}, std BTreeMap as compiled";
const MAP_STUB: &str = "the memory allocator; the caller's key and value types and source iterators";

const TMAP_RULE: &str = "Each run: a seeded history of 2-300 inserts, lookups, changes in place, merges and replacements of three heterogeneous maps with keys of 1-8 types (some of one name, one with a single key, some with values of one type), with panics injected into the caller's comparisons; all maps' contents compared with a model after every operation. Distinct by the hash of all fault decisions and steps.";
const TMAP_REAL: &str = "bongo::utils::type_map::TypeMap, std BTreeMap as compiled";
const TMAP_STUB: &str = "the memory allocator; the caller's key and value types";

const LAYOUT_RULE: &str = "Each run: 1-3 seeded grammars (some ill-formed) and token sequences, each put through building, printing, comparison of rules, productions, dotted productions and their sets, closures and successors, analyses, nullability removal, wrapping and parsing 2-12 times under different placement policies (up, down, random, reuse up, reuse down, gigabytes apart), with other allocations coming and going, earlier grammars held or dropped, and up to 3 threads allocating in between; all results compared across placements, sets of dotted productions also with an independent definition. Distinct by the hash of all scheduling decisions, placements and steps.";
const LAYOUT_REAL: &str = "bongo::grammar, bongo::grammar::passes, bongo::grammar::transform::nonnull, bongo::start_grammar, bongo::state, bongo::parsers::{earley,tree}, std collections as compiled";
const LAYOUT_STUB: &str = "the memory allocator (addresses chosen by the simulator); the kernel's futex and thread scheduler; the caller's terminal/nonterminal/action/value types";

const BUILD_RULE: &str = "Each run: 1-4 grammars built by each of 1-2 threads from a seeded script (well-formed ones and ones with missing, unused, unreachable, empty or dangling rules), with panics injected into the caller's build functions at any nesting, its comparison and clone code, each handled by trying the step again, going on without it, or not at all, and interrupted builds repeated; what is built or refused compared with what was added, copies and earlier grammars read again. Distinct by the hash of all scheduling and fault decisions and steps.";
const BUILD_REAL: &str = "bongo::grammar::{build, GrammarBuilder, RuleBuilder, ProductionBuilder, Grammar, GrammarErrors}, bongo::utils::{Name, breadth_first_search}, std BTreeMap as compiled";
const DERIVE_RULE: &str = "Each run: 1-3 seeded grammars wrapped with a start rule, freed of nullability, both one way round and the other, 1-7 times by each of 1-2 threads, with panics injected at seeded calls of the caller's comparison and clone code and interrupted requests repeated; results compared with the definition, the originals and earlier results read again after every request. Distinct by the hash of all scheduling and fault decisions and steps.";
const DERIVE_REAL: &str = "bongo::grammar::transform::nonnull, bongo::grammar::passes::nullable, bongo::start_grammar, bongo::grammar builder and grammar, std collections as compiled";
const MAKING_STUB: &str = "the memory allocator; the caller's terminal/nonterminal/action/value types and build functions";
const STATES_RULE: &str = "Each run: 1-4 rounds by each of 1-2 threads, every round over 1-2 of 1-4 seeded grammars built where those of the round before were, with a seeded history of 2-25 operations on up to 8 sets of dotted productions (made, added to, copied, closed under nine kinds of step functions, taken successors of, compared) and on single ones, and of searches, with panics injected into the caller's step functions, its iterators, comparison and clone code, and interrupted closures repeated; every set read and compared with a model after every operation. Distinct by the hash of all scheduling and fault decisions and steps.";
const STATES_REAL: &str = "bongo::state::{ProdState, ProdStateSet}, bongo::grammar::{Prod, ProdKey, ProdElement, Elem}, bongo::utils::breadth_first_search, std BTreeMap and BTreeSet as compiled";
const STATES_STUB: &str = "the memory allocator; the caller's terminal/nonterminal/action/value types, step functions and iterators";
const PRINT_RULE: &str = "Each run: 1-8 requests by each of 1-2 threads to print one of 1-3 seeded grammars (as built, with named symbols, wrapped, freed of nullability), a rule, production, dotted production, element or list, pretty-printed at seeded widths or for debugging in both styles, onto destinations that fill up after a seeded number of bytes, part of the last piece being written, some taking more afterwards, with panics injected into the caller's printing code, iterators and destinations, repeated until through; text compared with an independent rendering. Distinct by the hash of all scheduling and fault decisions and steps.";
const PRINT_REAL: &str = "bongo::grammar printing (ToDoc and Debug implementations), bongo::start_grammar, bongo::grammar::transform::nonnull, bongo::state::ProdState Debug, bongo::utils::fmt, the pretty crate, std::fmt as compiled";
const PRINT_STUB: &str = "the memory allocator; the destination; the caller's terminal/nonterminal/action/value types";
const RANGES_RULE: &str = "Each run: a seeded history of 4-40 operations by each of 1-2 threads on up to 12 ranges of 1-5 seeded texts (of every length of character, line ends of every kind, up to 30000 characters): ranges made, copied, read from, moved on by any number, cut at each other, asked for their places and dropped, with moves past the end, cuts that do not fit and panics in the caller's text sources; every range read after every operation. Distinct by the hash of all scheduling and fault decisions and steps.";
const RANGES_REAL: &str = "bongo::utils::buffer, std as compiled";
const RANGES_STUB: &str = "the memory allocator; the caller's text sources";
const NAMES_RULE: &str = "Each run: a seeded history of 4-400 operations by each of 1-2 threads on up to 300 names of 1-5 seeded texts: names made, copied, changed in place one and two at a time, compared, hashed, printed, used as keys, in elements and trees, and dropped, with panics in the caller's text sources and while it changes a name; every name and everything made with one read after every operation. Distinct by the hash of all scheduling and fault decisions and steps.";
const NAMES_REAL: &str = "bongo::utils::{Name, TreeNode}, bongo::grammar::ProdElement, std as compiled";
const NAMES_STUB: &str = "the memory allocator; the caller's text sources and changes";

static TABLE: Table = Table {
  scenarios: &[Scenario { name: "forest", run: forest::run }, Scenario { name: "parse", run: parse::run }, Scenario { name: "passes", run: passes::run }, Scenario { name: "layout", run: layout::run }, Scenario { name: "stream", run: stream::run }, Scenario { name: "fix", run: tables::run_fix }, Scenario { name: "map", run: tables::run_map }, Scenario { name: "tmap", run: typemap::run }, Scenario { name: "build", run: making::run_build }, Scenario { name: "derive", run: making::run_derive }, Scenario { name: "states", run: states::run }, Scenario { name: "print", run: print::run }, Scenario { name: "ranges", run: text::run_ranges }, Scenario { name: "names", run: text::run_names }],
  checks: &[
    Check { prop: "C01", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C02", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C03", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C04", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C05", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C06", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C07", gen: forest::gen, rule: FOREST_RULE, real: FOREST_REAL, stubs: FOREST_STUB },
    Check { prop: "C08", gen: parse::gen, rule: PARSE_RULE, real: PARSE_REAL, stubs: PARSE_STUB },
    Check { prop: "C09", gen: parse::gen, rule: PARSE_RULE, real: PARSE_REAL, stubs: PARSE_STUB },
    Check { prop: "C10", gen: parse::gen, rule: PARSE_RULE, real: PARSE_REAL, stubs: PARSE_STUB },
    Check { prop: "C11", gen: passes::gen, rule: PASS_RULE, real: PASS_REAL, stubs: PASS_STUB },
    Check { prop: "C12", gen: passes::gen, rule: PASS_RULE, real: PASS_REAL, stubs: PASS_STUB },
    Check { prop: "C13", gen: passes::gen, rule: PASS_RULE, real: PASS_REAL, stubs: PASS_STUB },
    Check { prop: "C14", gen: passes::gen_builtin, rule: BUILTIN_RULE, real: PASS_REAL, stubs: PASS_STUB },
    Check { prop: "C15", gen: stream::gen, rule: STREAM_RULE, real: STREAM_REAL, stubs: STREAM_STUB },
    Check { prop: "C16", gen: layout::gen, rule: LAYOUT_RULE, real: LAYOUT_REAL, stubs: LAYOUT_STUB },
    Check { prop: "C17", gen: tables::gen_fix, rule: FIX_RULE, real: FIX_REAL, stubs: FIX_STUB },
    Check { prop: "C18", gen: tables::gen_map, rule: MAP_RULE, real: MAP_REAL, stubs: MAP_STUB },
    Check { prop: "C19", gen: typemap::gen, rule: TMAP_RULE, real: TMAP_REAL, stubs: TMAP_STUB },
    Check { prop: "C20", gen: making::gen_build, rule: BUILD_RULE, real: BUILD_REAL, stubs: MAKING_STUB },
    Check { prop: "C21", gen: making::gen_derive, rule: DERIVE_RULE, real: DERIVE_REAL, stubs: MAKING_STUB },
    Check { prop: "C22", gen: states::gen, rule: STATES_RULE, real: STATES_REAL, stubs: STATES_STUB },
    Check { prop: "C23", gen: print::gen, rule: PRINT_RULE, real: PRINT_REAL, stubs: PRINT_STUB },
    Check { prop: "C24", gen: text::gen_ranges, rule: RANGES_RULE, real: RANGES_REAL, stubs: RANGES_STUB },
    Check { prop: "C25", gen: text::gen_names, rule: NAMES_RULE, real: NAMES_REAL, stubs: NAMES_STUB },
  ],
  init,
};

fn init() {
  std::panic::set_hook(Box::new(|_| {}));
  types::install_logger();
  types::set_logging(false);
  // What std remembers for the rest of the process from its first use.
  let _ = std::backtrace::Backtrace::capture();
  let _ = std::panic::catch_unwind(|| panic!("first"));
}

fn main() {
  std::process::exit(simcore::orch::main(&TABLE));
}
