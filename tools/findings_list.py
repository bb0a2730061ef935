KNOWN = [
    dict(id="C14-eigh_2x2-conjugate", property="C14", contract="eigh_2x2 complex hermitian", match="A v = lambda v",
         what="eigh_2x2(A) without B returns the complex conjugates of the eigenvectors of a complex Hermitian A "
              "(e.g. A = [[2, 1j], [-1j, 1]]); tests/test_linalg.py::test_eigh_2x2 asserts v1.T @ v2 without conjugation, "
              "so that the repair would break the existing tests; eigh() and the separation algorithms do not use this path"),
    dict(id="C14-eigh_2x2-diagonal", property="C14", contract="eigh_2x2 of descending diagonal matrices", match="",
         what="eigh_2x2(A) without B returns NaN vectors for a diagonal A with a11 >= a22 (e.g. A = [[2, 0], [0, 1]]); "
              "same path of the same function, left with the finding above"),
    dict(id="C23-dmc-nmf", property="C23", contract="gradient of the memory saving mode of T-ISS with the NMF model", match="",
         what="T_ISS(use_dmc=True) with NMFModel cannot be differentiated: the factors kept by the model between iterations are not "
              "inputs of the checkpointed step, so that backward raises RuntimeError (second backward through the same graph); the model "
              "would have to hand its state through the checkpoint"),
]
