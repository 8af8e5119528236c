NA = {
 "C28": "liveness of a nonlinear floating-point fixed-point iteration over all pairs of states: no loop variant or contract within reach bounds its iteration count (C25 proves the partial-correctness half)",
}
G = "machine arithmetic treated as real; numpy modelled; engine in /verif/pyvc trusted; "
NOTE.update({
 "C01": G + "symbolic mesh and order; fluxes, limiter flags and face values by contract; reconstruction of one cell bounded (orders enumerated), enhanced periodic ends bounded (listed mode sets)",
 "C02": G + "flux functions enter by contract (locality, proved in C05); symbolic mesh size and order",
 "C03": G + "symbolic mesh and order; without face enhancement; limited uniform data through the reconstruction of one cell at enumerated orders",
 "C04": G + "symbolic mesh size, order, names; a side with any other name is unspecified",
 "C05": G + "any number of faces, any gamma>1; Godunov star loop cut by its invariant, massflux and sonic by the contracts proved in C25",
 "C06": G + "any number of faces, any gamma>1; Godunov through the contracts of massflux and sonic proved in C25",
 "C07": G + "any gamma>1; one listed finding (Godunov, both sides running apart supersonically) excluded by precondition and replayed",
 "C08": G + "any gamma>1, nine combinations of the two entropy corrections cover all states",
 "C09": G + "wave speed, solution and output time arbitrary",
 "C10": G + "the time loop is cut by an invariant over any number of steps; nout >= 2 and final time after the start",
 "C11": G + "tables read by executing the code, order conditions over exact rationals with the tolerance stated in the property",
 "C12": G + "spatial operator, limiter and ghost fill arbitrary; one arbitrary iteration of the time loop per scheme",
 "C13": G + "any mesh, thresholds and admissible averages",
 "C14": G + "flags arbitrary; reconstruction of one cell an arbitrary function",
 "C15": G + "orders enumerated up to the bound in the evidence, every coefficient",
 "C16": G + "orders enumerated up to the bound in the evidence, every coefficient",
 "C17": G + "orders enumerated up to the bound in the evidence; file contents as values (text formatting and parsing of a number are inverse, virtual file system)",
 "C18": G + "parser: one arbitrary entry from an arbitrary state of the deck, so files of any length; writer: listed orders of definitions",
 "C19": G + "option values symbolic, unknown names included; physics functions and Runge-Kutta tables enter as arbitrary distinct functions",
 "C20": G + "symbolic mesh and order; numpy legfit by its interpolation contract",
 "C21": G + "any mesh, order and parameters; trigonometric and exponential functions uninterpreted with range facts",
 "C22": G + "orders and mode sets enumerated up to the bound in the evidence; any mesh, every coefficient",
 "C23": G + "symbolic order for the tables; shift and product integral for enumerated degrees",
 "C24": G + "symbolic mesh and order; with face enhancement bounded to the configuration in the evidence",
 "C25": G + "any gamma>1; partial correctness of the star-state loop by its invariant; a star pressure of exactly zero excluded; tolerance of the code taken as the meaning of converged",
 "C26": G + "symbolic mesh and order, periodic boundaries",
 "C27": G + "unenhanced matrices for every order; enhanced ones for enumerated orders and mode sets; analysis functions extracted from the scripts on every run",
})
