//! C08 to C11: the event parser and its syntax-tree sink.

mod prog;
mod tree;

use vcore::{Prop, part};

fn main() {
  let rule = "token lists (trivia anywhere, multi-byte texts) with well-nested parser programs: constructs, abandoned constructs, \
              immediate and delayed wrapping, abandoned wrappers, errors, expectations, lookahead, nested attempts";
  let rule: &'static str = rule;
  let with = |s: &'static str| -> &'static str { Box::leak(format!("{rule}; non-trivial: {s}").into_boxed_str()) };
  vcore::main(vec![
    Prop {
      id: "C08",
      parts: vec![part(
        "tokens",
        with("a token is consumed, trivia is handed over and a construct is finished"),
        120_000,
        3_000_000,
        prog::cases,
        prog::check_tokens,
      ),
      part(
        "large-tokens",
        "the same with tens of thousands of tokens and calls; non-trivial: as above",
        100,
        4_000,
        prog::large,
        prog::check_tokens,
      )],
    },
    Prop {
      id: "C09",
      parts: vec![part(
        "tree",
        with("at least three nodes in the expected tree and a wrapped, abandoned or empty construct"),
        120_000,
        3_000_000,
        prog::cases,
        prog::check_tree,
      ),
      part(
        "large-tree",
        "the same with tens of thousands of tokens and calls; non-trivial: as above",
        100,
        4_000,
        prog::large,
        prog::check_tree,
      )],
    },
    Prop {
      id: "C10",
      parts: vec![part(
        "traces",
        with("lookahead past trivia or an attempt, and a token consumed"),
        120_000,
        3_000_000,
        prog::cases,
        prog::check_traces,
      ),
      part(
        "large-traces",
        "the same with tens of thousands of tokens and calls; non-trivial: as above",
        100,
        4_000,
        prog::large,
        prog::check_traces,
      )],
    },
    Prop {
      id: "C11",
      parts: vec![
        part(
          "sink",
          "balanced sink event sequences with one root, errors anywhere; non-trivial: an error, a trivia token and two nodes",
          120_000,
          3_000_000,
          tree::cases,
          tree::check_sink,
        ),
        part(
          "parsed",
          with("an error is reported and a token delivered"),
          50_000,
          1_000_000,
          prog::cases,
          prog::check_parsed,
        ),
        part(
          "large-sink",
          "tens of thousands of tokens, nodes and errors; non-trivial: as above",
          48,
          2_400,
          tree::large,
          tree::check_sink,
        ),
        part(
          "large-parsed",
          "parses with tens of thousands of tokens and calls; non-trivial: as above",
          60,
          3_000,
          prog::large,
          prog::check_parsed,
        ),
      ],
    },
    Prop {
      id: "C37",
      parts: vec![
        part(
          "unfinished",
          with("stopped somewhere with unfinished constructs, one of which is dropped; then the tokens run out"),
          100_000,
          2_500_000,
          prog::stops,
          prog::check_dropped,
        ),
        part(
          "marks",
          "strings with a marker set somewhere, which is used in one of the ways there are or dropped; non-trivial: part of the \
           string lies between",
          200_000,
          3_000_000,
          prog::marks,
          prog::check_marks,
        ),
      ],
    },
  ]);
}
