"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/registry.py"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, script, note, observe=None, state=None,
         technique=None, level="model_checking", spec=None):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  script=script, note=note, observe=observe or [], state=state or [], level=level,
                  technique=technique or f"Quint specification ({spec}), simulated behaviours replayed into the real code"))


NUM = ("The specification computes in 96-bit fixed point and is independent of the code (own solver, own "
       "eigendecomposition). Behaviours are sampled, not exhaustive: the inputs are a continuum. Trusted: Quint's simulator "
       "(with the two corrections of harness/quint_fixes.js), PyTorch's linear algebra kernels, tolerance 1e-6 relative.")

prop("C01", "T-ISS computes the T-ISS recursion for every input and configuration",
     "For every multichannel STFT input, the joint dereverberation and separation algorithm shows the source model, at every "
     "iteration, and returns, exactly the signals defined by the T-ISS update equations (normalisation, source, background and "
     "tap steering, and scaling of every source to its image at the chosen reference microphone). This holds for any number of "
     "sources up to the number of microphones, any iterations, taps, delay, stabilising constant, reference microphone (or "
     "none), any place in a batch, and with or without demixing-matrix checkpointing. Dereverberation only uses frames that "
     "are more than `delay` frames in the past, and every estimate is the accumulated linear filter applied to the input.",
     ["inputs", "configurations"], "all signals x configurations (channels, sources, taps, delay, iterations, reference, eps, model, batch)",
     "The tests run a few fixed configurations and compare shapes, or two implementations of the same code; the overdetermined "
     "path, background reference microphones and non-zero delays are barely reached.",
     ["torchiva/t_iss.py", "torchiva/linalg.py", "torchiva/base.py"],
     [("iss_updates_with_H", "torchiva/t_iss.py"), ("background_update", "torchiva/t_iss.py"),
      ("projection_back_weights", "torchiva/t_iss.py"), ("hankel_view", "torchiva/linalg.py")],
     "c01_tiss.py", NUM, ["argument of every source model call", "value returned by T_ISS.forward"], spec="spec/tiss.qnt")

prop("C02", "AuxIVA-IP computes the (overdetermined) iterative projection recursion",
     "For every multichannel STFT input, iterative-projection IVA shows the source model, at every iteration, and returns, "
     "exactly the signals defined by the iterative projection equations, including the orthogonal constraint that keeps the "
     "background uncorrelated with the sources when there are fewer sources than microphones. This holds for any number of "
     "sources up to the number of microphones (all of them when none is given), any iterations, stabilising constant, reference "
     "microphone (also one of the background microphones, or none) and any place in a batch. Each updated demixing vector has unit weighted "
     "output power, and the output is scaled to its image at the reference microphone. With progress reports the result is the same and the objective is printed before and after every iteration.",
     ["inputs", "configurations"], "all signals x configurations (channels, sources, iterations, reference, eps, model, batch)",
     "The tests only run one or two shapes without comparing values; a wrong update still returns finite signals of the right shape.",
     ["torchiva/auxiva_ip.py", "torchiva/linalg.py"],
     [("orthogonal_constraint", "torchiva/auxiva_ip.py"), ("AuxIVA_IP.forward", "torchiva/auxiva_ip.py"),
      ("projection_back_from_demixing_matrix", "torchiva/auxiva_ip.py"), ("solve_loaded_general", "torchiva/linalg.py")],
     "c02_ip.py", NUM, ["argument of every source model call", "value returned by AuxIVA_IP.forward"], spec="spec/ip.qnt")

prop("C03", "AuxIVA-IP2 computes the two-channel joint update for every input",
     "For every two-channel STFT input, the two-source IVA update shows the source model, at every iteration, and returns, exactly the "
     "signals given by the generalised eigenvectors of the two weighted covariance matrices, in the right order and with the right "
     "normalisation, for any iterations, stabilising constant, reference microphone or none, and any place in a batch. "
     "After projection back, the two outputs add up to the reference microphone signal.",
     ["inputs", "configurations"], "all two-channel signals x configurations (iterations, reference, eps, model, batch)",
     "The tests check shapes only; swapping the sources, losing a conjugate or mixing up a scale keeps them green.",
     ["torchiva/auxiva_ip2.py", "torchiva/linalg.py"],
     [("spatial_model_update_ip2", "torchiva/auxiva_ip2.py"), ("eigh_2x2", "torchiva/linalg.py"), ("inv_2x2", "torchiva/linalg.py")],
     "c03_ip2.py", NUM, ["argument of every source model call", "value returned by AuxIVA_IP2.forward"], spec="spec/ip2.qnt")

prop("C04", "FIVE extracts the minimum-variance component of the whitened input",
     "For every multichannel STFT input, single-source extraction shows the source model, at every iteration, and returns, the signal "
     "obtained by whitening the input, taking the eigenvector of the smallest eigenvalue of the weighted covariance (or the requested number of power iterations on "
     "the inverse), and scaling it to its least-squares image at the reference microphone (or to unit weighted power without one). "
     "The first estimate is the dominant principal component, and the DC bin of the output is zero. This holds for any number of channels, iterations, power "
     "iterations, reference microphone and place in a batch.",
     ["inputs", "configurations"], "all signals x configurations (channels, iterations, power iterations, reference, model, batch)",
     "The tests run one configuration and look at shapes; phases, scales and the eigenvalue order are not observed.",
     ["torchiva/five.py", "torchiva/linalg.py"],
     [("FIVE.forward", "torchiva/five.py"), ("smallest_eigenvector_power_method", "torchiva/five.py"), ("eigh", "torchiva/linalg.py")],
     "c04_five.py", NUM, ["argument of every source model call", "value returned by FIVE.forward"], spec="spec/five.qnt")

prop("C05", "WPE subtracts the weighted linear prediction from delayed frames only",
     "For every multichannel STFT input, dereverberation returns the input minus its prediction from frames more than `delay` frames in the past, with "
     "the filter that minimises the weighted error (diagonally loaded normal equations), re-estimating the weights from the current estimate at each iteration. "
     "It holds for any number of channels, taps, delay, iterations, stabilising constant, weight model and place in a batch. "
     "The first delay + 1 frames are returned unchanged, and zero iterations return the input.",
     ["inputs", "configurations"], "all signals x configurations (channels, taps, delay, iterations, eps, model, batch)",
     "The tests compare with one reference run; delay zero, filters longer than the signal, batches and custom weights are not compared.",
     ["torchiva/wpe.py", "torchiva/linalg.py"],
     [("wpe_one_iter", "torchiva/wpe.py"), ("derev", "torchiva/wpe.py"), ("hankel_view", "torchiva/linalg.py"), ("solve_loaded", "torchiva/linalg.py")],
     "c05_wpe.py", NUM, ["argument of every weight model call", "value returned by WPE.forward"], spec="spec/wpe.qnt")

# --- more properties are appended here

exec((Path(__file__).parent / "registry_more.py").read_text()) if (Path(__file__).parent / "registry_more.py").exists() else None

if __name__ == "__main__":
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"],
                             hook_needed=None))) + "\n")
    cmd = "/opt/venv/bin/python harness/"
    man = dict(
        version=1, setup_cmd="bash setup.sh",
        checks=[dict(property=p["pid"], quick_cmd=cmd + p["script"], thorough_cmd="VERIF_TIER=thorough " + cmd + p["script"],
                     evidence_file=f"evidence/{p['pid']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
                for p in P],
        not_applicable=[],
        notes="All checks drive the public API of /repo's working tree; no hook is needed in /repo. Specifications: /verif/spec (Quint).")
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties")
