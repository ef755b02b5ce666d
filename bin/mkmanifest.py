"""Writes MANIFEST.json (run by hand after a change of the list of checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
BASE = ("TLA+ specification of the whole cluster (spec/ZRep.tla), explored exhaustively by TLC in small families, with counterexamples "
        "for every check that is taken out of it, random behaviours and directed scenarios; all of them are run on the real coordinator, "
        "server and client processes, every message of which is observed, decrypted and judged by TLC against the specification (trace validation). ")
NOTE = dict(
    C03=(" and cases generated from Request.tla, run on the real coordinator and servers", "Requests: every case of spec/Request.tla (which part of a request was made for what, TLC enumerates them with the verdict) is built and sent to real nodes. "),
    C04=(" and honest requests at every margin, made and verified by the real libraries", "The completeness part of spec/Request.tla (an honest request is accepted) is run on the real prover and verifier for every margin up to 200 (thorough: 700) and for a sample of larger ones. "),
    C11=(" and cases generated from Pass.tla, run on the real servers and the shuffle library", "Orders and bases are judged over many real passes: whether the distribution is even and nothing repeats is a statistical test with a false alarm rate below 1e-9. "),
    C12=(" and cases generated from Pass.tla, run on a real server", "Every deviation of spec/Pass.tla from an honest pass (TLC enumerates them with the verdict) is produced with real proofs and sent to a real server. "),
    C13=(" and cases generated from Pass.tla, run on the real servers", "What goes around the ring is drawn and decrypted again over several real rounds. "),
    C14=(" and cases generated from Honesty.tla, run on the real libraries and a real client", "The honesty test is explored on its own (spec/Honesty.tla) and its cases are run on the real functions and on a real client with an emulated coordinator. "),
    C15=(" and cases generated from Sig.tla, run on the real libraries", "Signatures: every alteration in spec/Sig.tla, with real keys; nonces of real servers are recomputed and compared. "),
    C17=(" and cases generated from Lrs.tla, run on the real library", "Ring signatures are decided on spec/Lrs.tla, whose cases (honest, altered, forged against each omitted hash input) are run on the real library; no cluster is started. "),
    C18=(" and cases generated from Codec.tla, run on the real encoders, decoders and listeners", "spec/Codec.tla says which values of each wire type there are by shape (sign, leading zeros, size, repetition); each is encoded and decoded by the real code, and real nodes get the same messages whole and in pieces. "),
    C19=(" and cases generated from Hide.tla, run on the real provers and a real client", "spec/Hide.tla shows exhaustively that wide, fresh blinding hides what is left of a reputation, and a counterexample for each rule left out; the blinding values of real proofs are recomputed from the secrets and compared with those rules. The width is judged on many proofs (7 of 8 have to fill the range), so a bias smaller than a bit is not seen. "),
)
TECH = "TLA+ model checking (TLC) with trace validation of the real processes"
def entry(p):
    i = p["id"]
    return dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                technique=TECH + NOTE.get(i, ("", ""))[0], level="model_checking",
                level_note=BASE + NOTE.get(i, ("", ""))[1] + "Assumes the Go toolchain, the dedis/crypto group library, TLC and the driver's "
                "own reference code for emulated clients; explored within the bounds in DESIGN.md, not proved for all sizes.")
json.dump(dict(version=1, setup_cmd="bin/setup", checks=[entry(p) for p in props], not_applicable=[]),
          open(V + "/MANIFEST.json", "w"), indent=1)
