"""Writes harness/src/many_rules.rs: rule sets of 40 and 300 rules, each rule with its own answers."""
import os
def rules(n):
    """Rule i reads "i." and goes to rule i+1 after "x", back to rule i/2 after "y"; odd rules yield strings."""
    out = []
    for i in range(n):
        t, lit = ("usize", f"{i}") if i % 2 == 0 else ("String", f'"{i}".to_string()')
        j = i + 2 if i + 2 < n else i % 2
        back = (i // 2) // 2 * 2 + i % 2
        out.append(f'        rule r{i}: {t} = {{ "{i}." => {lit}, "x" v:r{j} => v, "y" v:r{back} => v }};')
    return "\n".join(out)
def fn(n):
    return f"""pub fn rules_{n}() -> impl Parser<Output = (usize, String)> {{
    parser!(
{rules(n)}
        r0 "/" r1
    )
}}
"""
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "../harness/src/many_rules.rs"), "w").write(
    "//! Written by tools/mkmanyrules.py.\nuse aoc_parse::{parser, prelude::*};\ntype String = std::string::String;\n\n" + "\n".join(fn(n) for n in (40, 300)))
