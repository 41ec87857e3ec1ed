mod batch;
mod checks;
mod cli;
mod compiled;
mod graph;
mod passes;
mod pipe;
mod rt;
mod screen;
mod selfhost;
mod streams;
mod values;

use harn::Run;

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let run = Run::from_env(&prop);
    match &prop[..] {
        "C01" => compiled::c01(run),
        "C02" => compiled::c02(run),
        "C03" => checks::c03(run),
        "C04" => checks::c04(run),
        "C05" => checks::c05(run),
        "C06" => checks::c06(run),
        "C07" => checks::c07(run),
        "C08" => checks::c08(run),
        "C09" => {
            checks::c09_fast(&run);
            compiled::c09_compile(&run);
            run.finish(
                "generated modules: the declared types of many are read back and checked for duplicates, undeclared types and infinite size, and others, pasted from the command's output or expanded by the macro, are checked by rustc; non-trivial: more than two types",
                &["edition 2018, warnings allowed, deny-by-default lints in force for pasted code"],
            )
        }
        "C10" => {
            checks::c10_fast(&run);
            cli::c10_processes(&run);
            compiled::c10_routes(&run);
            run.finish(
                "programs recompiled in one process in different company and compared token by token, and programs compiled both by the macro and from the command's output whose complete run logs (verdicts, errors, trees, stream counts) are compared; non-trivial: over 2000 characters of code, or an execution compared",
                &[],
            )
        }
        "C11" => compiled::c11(run),
        "C12" => compiled::c12(run),
        "C13" => rt::c13(run),
        "C14" => rt::c14(run),
        "C15" => selfhost::c15(run),
        "C16" => selfhost::c16(run),
        "C17" => checks::c17(run),
        "C18" => cli::c18(run),
        "C19" => checks::c19(run),
        "C20" => {
            checks::c20_fast(&run);
            run.finish(
                "the generated code of programs with labels, definitions and parameters is parsed back with syn; the members of every generated type, in order, are compared with names worked out by the lexically scoped evaluator (label, else definition, else parameter or variable, else positional default; snake or camel case; numbered per name); non-trivial: at least one sequence or alternative",
                &["structurally identical sub-expressions share one generated type, named after one of its occurrences", "names that collide once case converted take the next free number"],
            )
        }
        "C25" => {
            checks::c25_fast(&run);
            compiled::c25_run(&run);
            run.finish(
                "programs with repeated sub-grammars under the same and different recursions: every node of the expansion is matched with its generated type and every recursion with its enclosing one, and compiled parsers are run against the recogniser and its derivations, which know no sharing; non-trivial: more than four nodes, or a non-empty input",
                &[],
            )
        }
        "C21" => compiled::c21(run),
        "C27" => compiled::c27(run),
        "C28" => compiled::c28(run),
        "C30" => values::c30(run),
        "C31" => passes::c31(run),
        "C26" => {
            checks::c26_static(&run);
            rt::c26_runtime(&run);
            run.finish(
                "every message of a rejected program, and of runtime errors with random contents, is compared with the facts: the undeclared name, the function's parameter count and the number supplied, the variable's name; line and column first, then the offending text and the expected characters, decoded from the quoted literals in the message; every case is non-trivial",
                &["numbers in an argument-count message: the real pair must appear as numerals or as its absence of an argument"],
            )
        }
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}
