"""Per property: harness sources, process layouts and budgets.
runs: list of (ranks, shards, omp threads); a shard takes every shards-th case of every law."""
D = [(1, 3, 2), (2, 1, 1)]
SPECS = {
 "C07": dict(src=["c07.cpp"], runs=[(1, 2, 2), (1, 1, 3), (2, 1, 1)], rule="the history folds a field whose rows span more than one vector lane block"),
 "C08": dict(src=["c08.cpp"], runs=[(1, 1, 2), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="more than one process, or more than one exchange in the history"),
 "C01": dict(src=["c01.cpp"], runs=[(1, 4, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the initial field is not constant, so the Laplacian acts"),
 "C02": dict(src=["c02.cpp"], runs=[(1, 4, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the initial field is not constant, so the Laplacian acts; in the shift laws, at least one site was moved by a period"),
 "C12": dict(src=["c12.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="field and velocity both vary over the lattice; with a mask, some but not all sites are masked"),
 "C13": dict(src=["c13.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="field and velocity both vary over the lattice"),
 "C14": dict(src=["c14.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the field has string plaquettes and wall sites, and plaquettes without a string"),
 "C09": dict(src=["c09.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="some but not all sites carry a branch jump that has to be mended (for the plain conversion: the phases are random)"),
 "C11": dict(src=["c11.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="the transformed array is not a single plane wave or a constant"),
 "C18": dict(src=["c18.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 2)], rule="more than ten finite data that fall into more than one bin"),
 "C19": dict(src=["c19.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="field and velocity both vary over the lattice, the filter is not the identity and the new grid is coarser"),
 "C20": dict(src=["c20.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the projected map or the field and velocity vary over the lattice (and the filter is not a constant)"),
 "C23": dict(src=["c23.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="field and velocity both vary over the lattice and something is measured"),
 "C24": dict(src=["c24.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="the density varies over the lattice"),
 "C21": dict(src=["c21.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="field and velocity both vary over the lattice"),
 "C10": dict(src=["c10.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the field is not constant and the factor is not one"),
 "C22": dict(src=["c22.cpp"], runs=[(1, 6, 1)], programs=["vaxions.cpp"], rule="the run was interrupted and restarted at least once before its end"),
 "C04": dict(src=["c04.cpp"], runs=[(1, 4, 3), (2, 1, 2), (3, 1, 2), (4, 1, 1)], programs=["vaxions.cpp"], rule="the two runs differ in ranks, threads or block shape (translation: the box is moved)"),
 "C25": dict(src=["c25.cpp"], runs=[(1, 4, 1)], rule="the universe expands (masses: the mass law is smooth at that time and not constant; shift: the potential is tilted; integrals: the interval is not empty)"),
 "C06": dict(src=["c06.cpp"], runs=[(1, 5, 1), (1, 1, 3)], rule="every case: the step is asked for with two safety factors; march: more than three steps were taken"),
 "C03": dict(src=["c03.cpp"], runs=[(1, 6, 1), (2, 1, 1)], rule="the error is well above the rounding floor, so that the order is measured"),
 "C15": dict(src=["c15.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="network: some but not all plaquettes are pierced; straight: at least one string; energy: field and velocity vary and some sites are masked"),
 "C16": dict(src=["c16.cpp"], runs=[(1, 3, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="the data behind the spectrum vary over the lattice; with a mask, some but not all sites are masked; core: every case"),
 "C17": dict(src=["c17.cpp"], runs=[(1, 2, 1), (1, 1, 4), (2, 1, 1), (2, 1, 2), (3, 1, 1), (4, 1, 1)], rule="the mask covers some but not all sites"),
 "C05": dict(src=["c05.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1)], rule="the field varies over the lattice"),
 "C26": dict(src=["c26.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="field and velocity both vary over the lattice"),
 "C28": dict(src=["c28.cpp"], runs=[(1, 2, 1), (1, 1, 3), (2, 1, 1), (3, 1, 1), (4, 1, 1)], rule="the generated field varies over the lattice; modes: more than six non-zero modes; smooth: at least one iteration on a varying field"),
 "C27": dict(src=["c27.cpp"], runs=[(1, 4, 1)], rule="options: at least two options; reject: always; continued: at least one option besides --index; startup: a request file present or an output variable set; measlist: more than three times"),
}
