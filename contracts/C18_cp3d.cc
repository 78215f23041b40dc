// Property C18: critical points are reported in exactly the space-time cells that contain a zero, with the right attributes (3D).
// @setup H_setup
#include "std_all.h"
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
#include "vals.h"
static const int N=3;
#define TRACKER critical_point_tracker_3d_regular
#define INVERSE inverse_lerp_s3v3<double>
#define ROBUST robust_critical_point_in_simplex3<int64_t,int>
#define CPTYPE critical_point_type_3d<double>
#define TRANS 1
#define SYMM 0
#define REPL_DERIV __v_replace((void*)(ndarray<double>(*)(const ndarray<double>&))&gradient3D<double>,(void*)&grad1); __v_replace((void*)(ndarray<double>(*)(const ndarray<double>&,int))&jacobian3D<double>,(void*)&jac3);
#include "cptrack.h"
CONTRACT(cp3full, "critical_point_tracker_3d_regular::check_simplex, simplex_coordinates, simplex_vectors, simplex_scalars, simplex_jacobians, simplex_indices (scalar and Jacobian given, lattice coordinates)", "a point is reported iff the zero test (contract C01) accepts the quantised values at the cell's vertices taken from the right snapshot; its position, time, scalar, type, tag, timestep and ordinal flag are those of the zero") { run(REGULAR_COORDS_SIMPLE,SCAL|JAC,0,59); }
CONTRACT(cp3bare, "critical_point_tracker_3d_regular::check_simplex, simplex_coordinates, simplex_vectors, simplex_scalars, simplex_jacobians, simplex_indices (vector field only)", "a point is reported iff the zero test (contract C01) accepts the quantised values at the cell's vertices taken from the right snapshot; its position, time, scalar, type, tag, timestep and ordinal flag are those of the zero") { run(REGULAR_COORDS_SIMPLE,0,0,59); }
CONTRACT(cp3bounds, "critical_point_tracker_3d_regular::check_simplex, simplex_coordinates, simplex_vectors, simplex_scalars, simplex_jacobians, simplex_indices (coordinates by bounds)", "a point is reported iff the zero test (contract C01) accepts the quantised values at the cell's vertices taken from the right snapshot; its position, time, scalar, type, tag, timestep and ordinal flag are those of the zero") { run(REGULAR_COORDS_BOUNDS,0,0,59); }
CONTRACT(cp3rect, "critical_point_tracker_3d_regular::check_simplex, simplex_coordinates, simplex_vectors, simplex_scalars, simplex_jacobians, simplex_indices (rectilinear coordinates)", "a point is reported iff the zero test (contract C01) accepts the quantised values at the cell's vertices taken from the right snapshot; its position, time, scalar, type, tag, timestep and ordinal flag are those of the zero") { run(REGULAR_COORDS_RECTILINEAR,0,0,59); }
CONTRACT(cp3expl, "critical_point_tracker_3d_regular::check_simplex, simplex_coordinates, simplex_vectors, simplex_scalars, simplex_jacobians, simplex_indices (explicit coordinates)", "a point is reported iff the zero test (contract C01) accepts the quantised values at the cell's vertices taken from the right snapshot; its position, time, scalar, type, tag, timestep and ordinal flag are those of the zero") { run(REGULAR_COORDS_EXPLICIT,0,0,59); }
BOUNDED(cp3out, "critical_point_tracker_3d_regular::check_simplex, clamp_barycentric (zero numerically outside the cell)", "the barycentric coordinates are clamped to the cell and renormalised", "one cell type and position") { run(REGULAR_COORDS_SIMPLE,OUT,0,0); }
CONTRACT(cp3update, "critical_point_tracker_3d_regular::update_timestep, element_for_ordinal, element_for_interval, filter_critical_point_type", "every cell of the timestep, and with two snapshots every cell between the timesteps, is tested once; exactly the reported points of a requested type are stored, under their cell") { update(); }
CONTRACT(cp3init, "regular_tracker::initialize (one process)", "the mesh spans domain and timesteps, arrays cover the array domain") { init(); }
BOUNDED(cp3adv, "critical_point_tracker::advance_timestep, push_scalar_field_snapshot, pop_field_data_snapshot", "each call processes the current timestep, advances by one, drops the snapshot of the past timestep, and tells whether data remain", "1 to 3 snapshots queued") { advance(); }
BOUNDED(cp3push, "critical_point_tracker_3d_regular::push_scalar_field_snapshot, push_vector_field_snapshot", "given data are queued behind the earlier ones; derived gradients and Jacobians come from the derivative operators (contract C15) applied to them", "arrays of one element") { push(); }
BOUNDED(cp3fin, "critical_point_tracker_3d_regular::finalize", "points are traced once, with cells neighbouring exactly when they are faces of a common cell", "one position in a mesh of 4 points per axis, cell types 0..2") { fin(); }
BOUNDED(cp3store, "critical_point_tracker_3d_regular::put_critical_points, get_critical_points", "every point is filed under the cell its tag denotes and returned unchanged", "mesh of 5 points per axis, two points") { store(); }
