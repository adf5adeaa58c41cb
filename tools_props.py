"""Generates properties.jsonl (run by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m.split('@')[0].strip(), where=m.split('@')[1].strip()) for m in mech],
                               observe_at=observe or [], hook_needed=None)))
S='src/pyclaw/'
p('C01','Evolving to a requested time arrives exactly there or raises',
  'Asking a solver with variable steps to evolve a solution to a time ends with the solution at exactly that time (up to rounding), never beyond it at any intermediate step, and with time advancing by each accepted step size; if the allowed number of steps is used up first, an exception is raised instead of a normal return. Asking for a time already reached takes no step, changes nothing, and does not affect later calls; asking for no time takes exactly one step attempt.',
  ['inputs','histories'],'all start/end times, initial steps, limits and all sequences of Courant numbers reported by the update, within a bounded number of steps per call',
  'Tests run a few fixed problems whose Courant numbers follow one trajectory; early arrival, rejection patterns and repeated calls are not sampled.',
  [S+'solver.py',S+'classic/solver.py',S+'sharpclaw/solver.py'],['evolve_to_time@src/pyclaw/solver.py','get_dt@src/pyclaw/solver.py'])
p('C02','A rejected time step leaves no trace in the solution',
  'When a step is rejected because its Courant number exceeds the allowed maximum, the solution values, its time and the step counter are exactly what they were before the step, no gauge record is written, and the step is retried with a smaller step; with a fixed step size an exception is raised instead. The Courant number of every step that is kept is at most the allowed maximum.',
  ['inputs','histories'],'all solution values, all updates made by the attempted step, all Courant-number sequences, bounded number of attempts',
  'Rejections hardly occur in the test problems, and then only with one data set.',
  [S+'solver.py',S+'classic/solver.py',S+'sharpclaw/solver.py'],['accept/reject and q backup@src/pyclaw/solver.py evolve_to_time'])
p('C03','Fixed-step runs take exactly the given steps or refuse',
  'With a fixed step size, evolving to a time takes a whole number of steps of exactly that size, the n-th step ending at start time plus n steps, and ends at the requested time (to the documented tolerance); if the step does not divide the interval an exception is raised before anything changes. A Courant number above the maximum raises an exception rather than continuing.',
  ['inputs','histories'],'all start times, step sizes, interval lengths and Courant numbers, bounded step count',
  'Only a few fixed dt/tfinal pairs are tested.',
  [S+'solver.py'],['fixed-dt branch of evolve_to_time@src/pyclaw/solver.py'])
p('C04','Step-size selection obeys its limits and statistics',
  'With variable steps, each new step size is the last one scaled to meet the desired Courant number, reduced if needed so as not to exceed the maximum allowed step or to pass the requested end time, and is the maximum allowed step when no waves were detected; in the SSP multistep methods it satisfies the strong-stability condition of the method for the step sizes in use instead. The reported statistics are the true number of accepted steps and the true largest Courant number among them (for SharpClaw including the stage evaluations of rejected attempts, rescaled to the accepted step).',
  ['inputs','histories'],'all step sizes, limits and Courant-number sequences within the step bound',
  'No test sets a maximum step or inspects the chosen steps.',
  [S+'solver.py',S+'sharpclaw/solver.py'],['get_dt/get_dt_new@src/pyclaw/solver.py','get_dt_new@src/pyclaw/sharpclaw/solver.py'])
p('C05','Source terms act for exactly the accepted step',
  'On every accepted step of the classic solvers the user source term is applied for a total duration equal to the step size: once after the homogeneous update for first-order splitting, and as two half steps around it for Strang splitting. SharpClaw adds the user source to every stage as part of the same semi-discrete right-hand side, evaluated for the full step.',
  ['inputs','histories'],'all solution values, step sizes and Courant numbers (including exactly the maximum), all source functions',
  'Tests use smooth sources far from the acceptance boundary.',
  [S+'classic/solver.py',S+'sharpclaw/solver.py'],['step@src/pyclaw/classic/solver.py','dq@src/pyclaw/sharpclaw/solver.py'])
p('C06','Ghost cells satisfy the chosen boundary conditions',
  'After boundary conditions are applied, ghost cells hold the values their condition defines (nearest interior value for extrapolation; the values at the other end for periodic; mirror values with the normal component negated for solid walls; whatever the user function wrote for custom) in every direction including edges and corners, for solution and auxiliary arrays alike. Interior values equal the current solution and are never altered.',
  ['inputs','configurations'],'all values, all combinations of condition types per side, 1 to 3 dimensions, 1 to 3 ghost layers',
  'Tests sample few of the condition combinations and compare only final solutions.',
  [S+'solver.py',S+'state.py'],['_apply_bcs/_bc_lower/_bc_upper@src/pyclaw/solver.py','get_qbc_from_q@src/pyclaw/state.py'])
p('C07','Classic solvers conserve what the Riemann solver conserves',
  'For any Riemann solver whose fluctuations sum to a flux difference, a time step of the classic solvers (1D, 2D, 3D; split or unsplit; any order, limiter, transverse setting; wave or f-wave form; with or without capacity function) changes the total of each conserved quantity only by the fluxes through the domain boundary; with periodic boundaries the total is unchanged.',
  ['inputs','configurations'],'all cell values, wave speeds, wave strengths, step sizes and grid spacings on small grids',
  'Regression tests compare to stored solutions; a compensating loss below tolerance or in an untested configuration is invisible.',
  [S+'classic/step1.f90',S+'classic/step2.f90',S+'classic/step2ds.f90',S+'classic/flux2.f90',S+'classic/step3.f90',S+'classic/step3ds.f90',S+'classic/flux3.f90',S+'classic/solver.py'],
  ['flux-difference updates@src/pyclaw/classic/step1.f90','@src/pyclaw/classic/flux2.f90','@src/pyclaw/classic/flux3.f90'])
p('C08','The 1D step is the high-resolution wave-propagation method',
  'One homogeneous step in one dimension equals the documented wave-propagation formula: the Godunov update from the fluctuations plus, for second order, the difference of limited correction fluxes, with each step scaled by the capacity function where present; the interpreted and the compiled kernel give the same result for the same data and the same Riemann solution. At Courant number one a uniform advection problem is shifted by exactly one cell whatever the limiter.',
  ['inputs','configurations'],'all cell values, waves, speeds, capacity values, steps; all orders, limiter on/off, wave or f-wave form; small grids',
  'Tests compare each kernel with stored results on a few problems only.',
  [S+'classic/step1.f90',S+'classic/limiter.f90',S+'classic/solver.py',S+'limiters/tvd.py'],
  ['step1@src/pyclaw/classic/step1.f90','ClawSolver1D.step_hyperbolic Python branch@src/pyclaw/classic/solver.py'])
p('C09','Limiters stay in their region and agree across kernels',
  'Each flux limiter is its documented function of the smoothness ratio (and Courant number) of the one interface it is applied to; the standard ones (minmod, superbee, van Leer, MC) are 1 on linear data, 0 at extrema and within the second-order TVD region, and the interpreted and compiled versions agree. Limiting a family of waves rescales each wave by the limiter of its own upwind ratio only, and leaves zero waves and boundary waves alone.',
  ['inputs','configurations'],'all ratios and Courant numbers in (0,1); all waves and speeds on small grids',
  'Tests use two or three limiters on smooth problems.',
  [S+'classic/philim.f90',S+'classic/limiter.f90',S+'limiters/tvd.py'],
  ['philim@src/pyclaw/classic/philim.f90','limiter functions@src/pyclaw/limiters/tvd.py'])
p('C10','The reported Courant number is the true maximum',
  'After every step or right-hand-side evaluation the reported Courant number is the largest, over all interfaces that influence the interior, directions and waves, of wave speed times step size over the spacing (and over the capacity of the cell the wave enters). It is not smaller for any placement or sign of the fastest wave.',
  ['inputs','configurations'],'all wave speeds, capacities, spacings, steps on small grids; all dimensions and kernels',
  'The fastest wave sits at generic places in test problems, so boundary rows and directions are not exercised.',
  [S+'classic/step1.f90',S+'classic/step2.f90',S+'classic/step2ds.f90',S+'classic/step3.f90',S+'classic/step3ds.f90',S+'sharpclaw/flux1.f90',S+'sharpclaw/flux2.f90',S+'sharpclaw/flux3.f90',S+'classic/solver.py',S+'sharpclaw/solver.py'],
  ['cfl accumulation@src/pyclaw/classic/flux2.f90'])
p('C11','Dimension-split steps are compositions of 1D sweeps',
  'A dimensionally split step in two or three dimensions gives, in every interior cell, the result of applying the one-dimensional method along each line of cells in each direction in turn, each sweep starting from the result of the previous one.',
  ['inputs','configurations'],'all cell values and all Riemann solutions, spacings, steps, with and without capacity function; small grids',
  'Stored 2D/3D solutions exist for few problems; line indices at the edges are not discriminated.',
  [S+'classic/step2ds.f90',S+'classic/step3ds.f90',S+'classic/flux2.f90',S+'classic/flux3.f90',S+'classic/solver.py'],
  ['step2ds@src/pyclaw/classic/step2ds.f90','step3ds@src/pyclaw/classic/step3ds.f90'])
p('C12','Multidimensional steps treat all axes and orientations alike',
  'Relabelling the axes of an unsplit two- or three-dimensional problem (data, spacing, Riemann solver) relabels the result; reversing an axis reverses it; and data that vary in one direction only give the one-dimensional result, for every order and transverse setting. A multidimensional SharpClaw right-hand side is the sum of the one-dimensional ones along the lines of cells in each direction.',
  ['inputs','configurations'],'all cell values, normal and transverse Riemann solutions, spacings, steps; small grids',
  'Multi-D tests are regression comparisons on specific orientations.',
  [S+'classic/step2.f90',S+'classic/flux2.f90',S+'classic/step3.f90',S+'classic/flux3.f90',S+'sharpclaw/flux2.f90',S+'sharpclaw/flux3.f90'],
  ['flux2@src/pyclaw/classic/flux2.f90','flux3@src/pyclaw/classic/flux3.f90'])
p('C13','Constant states are preserved exactly',
  'If all cells hold the same state and the Riemann solver returns no waves for equal states, a step of any solver in any dimension leaves the state unchanged for every boundary condition that keeps it constant, every order, limiter, reconstruction and time integrator.',
  ['inputs','configurations'],'all states, wave speeds, spacings, steps and option combinations on small grids',
  'Few option combinations are tested and none against this invariant.',
  [S+'classic/solver.py',S+'sharpclaw/solver.py',S+'sharpclaw/flux1.f90',S+'sharpclaw/reconstruct.f90',S+'sharpclaw/weno.f90'],
  ['reconstruction and fluctuation kernels@src/pyclaw/sharpclaw/flux1.f90'])
p('C14','Reconstruction is exact, symmetric and kernel-independent',
  'High-order reconstruction of cell averages returns the common value for constant data, both interface values of the linear function for linear data, convex combinations of the candidate stencils (weights non-negative, summing to one), and mirrored values for mirrored data; each component is treated independently, and the interpreted and compiled fifth-order versions agree (component-wise for all data, wave-based for waves that add up to the jump and keep their directions). Second-order TVD values lie between the neighbouring averages.',
  ['inputs','configurations'],'all cell averages; all supported orders; small grids',
  'Tests check final solutions of smooth problems to loose tolerance.',
  [S+'sharpclaw/weno.f90',S+'sharpclaw/reconstruct.f90',S+'limiters/recon.py'],
  ['weno_comp/weno5@src/pyclaw/sharpclaw/reconstruct.f90','weno5@src/pyclaw/limiters/recon.py'])
p('C15','SharpClaw right-hand sides are conservative',
  'For Riemann solvers in flux-difference form, the SharpClaw right-hand side summed over the grid (weighted by the capacity function where present) equals the difference of boundary fluxes, in one, two and three dimensions and for the interpreted and compiled kernels, and the two one-dimensional kernels give the same right-hand side.',
  ['inputs','configurations'],'all cell values, reconstructed values, Riemann solutions, spacings, capacities; small grids',
  'Regression tests only; totals are not examined.',
  [S+'sharpclaw/flux1.f90',S+'sharpclaw/flux2.f90',S+'sharpclaw/flux3.f90',S+'sharpclaw/solver.py'],
  ['flux1@src/pyclaw/sharpclaw/flux1.f90','dq_hyperbolic@src/pyclaw/sharpclaw/solver.py'])
p('C16','Time integrators apply their defining method',
  'Each time integrator computes the update of the method it names for an arbitrary right-hand side and step size: stage values, stage times and final combination for the Runge-Kutta methods (with order conditions satisfied for the built-in ones), and for multistep methods the combination of stored steps whose coefficients satisfy the order conditions for the actual, possibly varying, step sizes, including after rejected steps.',
  ['inputs','histories'],'all right-hand sides (arbitrary values per evaluation), step sizes, times; step histories up to the method length plus one',
  'Convergence tests use smooth problems and constant steps.',
  [S+'sharpclaw/solver.py'],['step, ssp22, ssp104, update_saved_values@src/pyclaw/sharpclaw/solver.py'])
p('C17','Grid coordinates always match the grid definition',
  'Cell centers, edges and ghost-extended coordinates reported for a dimension, grid or patch, in computational and mapped coordinates, always follow from its current bounds and number of cells: edges start at the lower and end at the upper bound, centers are midpoints, ghost extensions continue the same spacing, and multi-dimensional arrays pair the coordinates of each axis. This holds after any sequence of changes to bounds, resolution or mapping and of earlier queries.',
  ['inputs','histories'],'all bounds and mappings; small cell counts; bounded sequences of updates and queries',
  'Doctests query fresh grids; interleavings of updates and cached queries are not tested.',
  [S+'geometry.py'],['cached coordinate properties@src/pyclaw/geometry.py'])
p('C18','The controller writes the requested frames at the right times',
  'A controlled run yields one output frame at the start time and one at each requested output time (equispaced times, a list of times beginning with the start time, or every so many steps), numbered consecutively from the starting frame number, each holding the solution at that time; frames kept in memory are independent snapshots that later evolution does not alter.',
  ['inputs','histories','configurations'],'all start/final times, time lists, frame counts up to the bound and all evolutions of the solution',
  'Tests use one output style with fixed times.',
  [S+'controller.py',S+'solution.py'],['Controller.run@src/pyclaw/controller.py'])
p('C19','Solutions written to disk read back unchanged',
  'A solution written in a supported format and read back has the same grid, time, frame metadata, solution values and auxiliary values in the same places, to the precision of the format, for every dimension, number of equations and auxiliary fields and for multiple patches; derived output files are readable with their own size. Writing never changes the solution, and VTK output holds each patch\'s data and marks exactly the cells covered by finer patches.',
  ['inputs','configurations'],'all values and bounds; small shapes in 1D-3D; with and without auxiliary data',
  'Round-trip tests cover one file set.',
  [S+'fileio/ascii.py',S+'fileio/binary.py',S+'fileio/hdf5.py',S+'solution.py'],['write/read@src/pyclaw/fileio/ascii.py'])
p('C20','Copies of solutions and states are faithful and independent',
  'A deep copy of a solution or state has equal values, times, grids, auxiliary data, capacity setting and problem parameters, its parts belong together (its states live on the patches of its own domain), and changing either one afterwards never affects the other.',
  ['inputs','histories'],'all values; subsequent modifications of either copy',
  'Only incidental use in tests.',
  [S+'solution.py',S+'state.py',S+'geometry.py'],['__deepcopy__@src/pyclaw/state.py'])
p('C21','Gauges record the cell that contains them, once per step',
  'A gauge placed anywhere inside the domain reports the values of a cell that contains its location; every accepted step adds exactly one record per gauge holding the time after the step and the requested quantity, in memory and in its file, and rejected steps add none.',
  ['inputs','histories'],'all gauge positions and grid bounds (machine arithmetic for the cell index), all solution values; 1D-3D; small grids',
  'Tests use two gauges at cell-centred positions.',
  [S+'geometry.py',S+'solver.py',S+'controller.py'],['add_gauges@src/pyclaw/geometry.py','write_gauge_values@src/pyclaw/solver.py'])
p('C22','Compiled kernels stay inside their arrays and use defined data',
  'For every admissible grid size, ghost width, number of equations, waves and auxiliary fields, the compiled kernels accept the arrays the solvers allocate for them, read and write only inside those arrays, and the new interior values and Courant number depend only on data that was set, never on leftover memory.',
  ['inputs','configurations'],'all double data; all size combinations within the bound',
  'Out-of-bounds reads and uninitialised values usually go unnoticed in passing runs.',
  [S+'classic/*.f90',S+'sharpclaw/*.f90'],['array dimensioning and work-array partition@src/pyclaw/classic/step2.f90','@src/pyclaw/classic/step3.f90'])
p('C23','Parallel runs give the serial answer',
  'Distributing a problem over processes gives the same solution, output and gauges as the serial run.',
  ['schedules','configurations'],'all process counts and domain decompositions','PETSc is not available, tests skip.',
  ['src/petclaw/state.py','src/petclaw/geometry.py','src/petclaw/cfl.py'],['DMDA-based state@src/petclaw/state.py'])
p('C24','NetCDF files read back unchanged',
  'A solution written in NetCDF format reads back unchanged.',
  ['inputs'],'all solutions','No test covers the format.',
  [S+'fileio/netcdf.py'],['write/read@src/pyclaw/fileio/netcdf.py'])
p('C25','Unsplit multidimensional steps are the wave-propagation method',
  'One homogeneous unsplit step of the classic solvers in two or three dimensions equals the documented wave-propagation formula in every interior cell: the Godunov update from the normal fluctuations in each direction, the limited second-order corrections when second order is chosen, and exactly the transverse corrections selected by the transverse setting (none; the increment waves; also the correction waves; in three dimensions with or without corner transport), each solver given the states and auxiliary values of its own cells, and everything scaled by the capacity function where present.',
  ['inputs','configurations'],'all cell and ghost values, auxiliary and capacity values, cell widths, steps and (normal and transverse) Riemann solvers, for every order and transverse setting, on small grids',
  'The tests compare a few smooth problems with stored results to a tolerance; most combinations of order, transverse setting, capacity and auxiliary fields are never run.',
  [S+'classic/solver.py',S+'classic/step2.f90',S+'classic/flux2.f90',S+'classic/step3.f90',S+'classic/flux3.f90'],['ClawSolver2D/3D.step_hyperbolic@src/pyclaw/classic/solver.py','flux2@src/pyclaw/classic/flux2.f90','flux3@src/pyclaw/classic/flux3.f90'])
p('C26','SharpClaw right-hand sides follow from the interface values',
  'The SharpClaw right-hand side of a cell is minus the time step over the cell width (times the capacity value) times the sum, over directions, of the fluctuations entering the cell at its two faces and the total fluctuation between its own two interface values, plus the user source term where given; this holds for the interpreted and compiled kernels, with and without a total-fluctuation solver, and evaluating it does not change the solution.',
  ['inputs','configurations'],'all cell and ghost values, capacity values, widths, steps and Riemann solvers; every reconstruction; 1D-3D small grids',
  'Only smooth model problems are run; capacity functions, total-fluctuation solvers and source terms are hardly combined in tests.',
  [S+'sharpclaw/solver.py',S+'sharpclaw/flux1.f90',S+'sharpclaw/flux2.f90',S+'sharpclaw/flux3.f90'],['dq, dq_hyperbolic@src/pyclaw/sharpclaw/solver.py','flux1@src/pyclaw/sharpclaw/flux1.f90'])
p('C27','Gauge record files read back unchanged',
  'A gauge written by GaugeSolution.write, or stored in the supported text and 64- or 32-bit binary layouts (with or without the type and format header lines), reads back with the same number, location in one to three dimensions, type, levels, times, values and particle path, to the precision of the format; a file that holds another gauge is refused. Converting an old combined file gives every gauge exactly its own records in order.',
  ['inputs','configurations'],'all locations, times and values; 1-3 coordinates, every header variant, several records and gauges',
  'No test reads or writes these files.',
  [S+'gauges.py'],['GaugeSolution.read/write@src/pyclaw/gauges.py','convert_gauges@src/pyclaw/gauges.py'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), [x['id'] for x in P if len(x['title'])>80])
