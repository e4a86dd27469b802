"""Driver program that evaluates unit expressions with the library's runtime evaluator."""
SRC = r'''
use std::io::{BufRead, Write};
use whippyunits_core::{UnitExpr, EvaluationMode, calculate_unit_conversion_factors, get_unit_info};
use syn::parse::Parser;
fn one(s: &str) -> String {
    let parsed = std::panic::catch_unwind(|| {
        match syn::parse_str::<UnitExpr>(s) {
            Err(_) => "ERR".to_string(),
            Ok(e) => {
                let unk: Vec<String> = e.collect_unit_identifiers().iter().map(|i| i.to_string())
                    .filter(|n| n != "dimensionless" && n != "power_of_10" && get_unit_info(n).is_none()).collect();
                let r = e.evaluate_with_mode(EvaluationMode::Tolerant);
                let (cf, af) = calculate_unit_conversion_factors(&e);
                let strict = e.validate_strict().is_none();
                format!("OK\t{:?}\t{:?}\t{:016x}\t{:016x}\t{}\t{}", r.dimension_exponents.0, r.scale_exponents.0,
                    cf.to_bits(), af.to_bits(), strict, unk.join(","))
            }
        }
    });
    parsed.unwrap_or_else(|e| format!("PANIC\t{}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")))
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = Parser::parse_str; 
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let chunk = lines.len().div_ceil(n).max(1);
    let outs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = lines.chunks(chunk).map(|c| sc.spawn(move || {
            let mut o = String::new();
            for l in c { o.push_str(&one(l)); o.push('\n'); }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let so = std::io::stdout(); let mut so = so.lock();
    for o in outs { so.write_all(o.as_bytes()).unwrap(); }
}
'''.replace("use syn::parse::Parser;\n", "").replace("    let _ = Parser::parse_str; \n", "")
import json
from lib import Crate, MachineryError, bits_f64


class Driver:
    def __init__(self):
        self.c = Crate("exprdrv", deps=("whippyunits-core", 'syn = { version = "2.0", features = ["full"] }'), opt=1)
        self.c.bin("exprdrv", SRC)
        ok, diags = self.c.build()
        if not ok:
            raise MachineryError("expression driver does not build: " + self.c.stderr[-3000:] + "".join(d["rendered"] for d in diags[:3]))

    def eval(self, exprs):
        p = self.c.run("exprdrv", input=("\n".join(exprs) + "\n").encode("utf-8"))
        if p.returncode != 0:
            raise MachineryError("expression driver died: " + p.stderr.decode()[-500:])
        out = p.stdout.decode("utf-8").split("\n")[:-1]
        if len(out) != len(exprs):
            raise MachineryError(f"driver answered {len(out)} of {len(exprs)}")
        res = []
        for l in out:
            f = l.split("\t")
            if f[0] == "OK":
                res.append(("OK", tuple(json.loads(f[1])), tuple(json.loads(f[2])), bits_f64(int(f[3], 16)),
                            bits_f64(int(f[4], 16)), f[5] == "true", [x for x in f[6].split(",") if x]))
            else:
                res.append(tuple(f))
        return res
