"""writes known_findings.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """C04 7a1d59c AuxIVA_IP with n_src=None raised instead of using the number of channels
C03 0e0e898 AuxIVA_IP projection back on a microphone >= n_src used the wrong right-hand side
C03 a661939 T_ISS projection back of batched input on a microphone >= n_src failed
C16 bb4d044 STFT did not accept a custom window
C13 255dfb2 diagonal_loading raised NameError
C14 a18a716 eigh_2x2 computed generalized eigenvalues of double matrices in single precision
C01 67ba120 T_ISS did not store the dereverberation filter
C08 b4d17e3 compute_mwf_bf ignored eps with a reference microphone
C06 3f21897 FIVE power method normalised over the batch and failed with one iteration
C06 cd93b01 FIVE failed with proj_back_mic=None
C14 ffaac06 eigh returned wrong eigenvectors for complex and diagonal 2x2 matrices
C04 707f088 AuxIVA_IP(verbose=True) failed on batched input
C06 ca95c60 FIVE initial projection back had the conjugate phase
C21 fc94950 CLI kept only --src channels instead of --mic
C21 a843bb5 CLI raised NameError when there were more outputs than sources
C21 ec92cc2 CLI ignored --n_iter for the classic source models
C21 0bbe6fa CLI overwrote its input file
C21 f9a9437 CLI folder mode: equal names in different sub-folders overwrote each other
C20 5f81673 an interrupted download was taken for a cached model
C02 a98c3d9 T_ISS background update had the wrong sign of the dereverberation term
C14 dd974f9 inv_2x2 of a single matrix returned an extra dimension
C15 a718042 mixed norm minimum distortion used wrong weights for q other than 1 and 2
C17 5430d63 WPE did not reset source models with internal state
C09 250a921 minimum_distortion stopped iterating all signals of a batch on a criterion over the whole batch
C20 08da519 two URLs with the same last component shared a cache entry
C21 da0313a CLI folder mode overwrote input files below the output folder
C14 1f6f134 generalized eigh_2x2 returned zero or wrong vectors when the first row of A - lambda B vanishes (diagonal pairs)
C23 d8c251a gradients of the Laplace and NMF source models were NaN on silent frames
C15 4451ab7 minimum_distortion(model=...) raised on unbatched signals and gave all signals of a batch the weights of one frequency of the first
"""
KNOWN = []
try:
    from findings_list import KNOWN  # noqa
except ImportError:
    pass
json.dump({"known": KNOWN,
           "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED.splitlines()]},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
