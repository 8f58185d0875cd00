// Linked into every program under test: shows the state at the end of each
// time step to the simulator (see TEMPEST_SIM_HOOK in src/atm/Model.cpp).
#include "Grid.h"
#include "GridCSGLL.h"
#include "GridCartesianGLL.h"
#include "GridPatch.h"
#include "Model.h"
#include "EquationSet.h"
#include "CubedSphereTrans.h"
#include <cmath>

extern "C" int tsim_hook_level();
extern "C" void tsim_hook_patch(int step, int patch);
extern "C" void tsim_hook_node(int step, const double *x, int k, int comp, double v);

extern "C" void TempestSimHook(const Grid & grid, const Time & time, int iStep) {
	if (tsim_hook_level() == 0) return;
	const EquationSet & eqn = grid.GetModel().GetEquationSet();
	GridCartesianGLL * cart = dynamic_cast<GridCartesianGLL *>(const_cast<Grid *>(&grid));
	int nc = eqn.GetComponents(), nt = eqn.GetTracers(), nr = grid.GetRElements();
	bool per[2] = {false, false};
	if (cart) {
		per[0] = tsim_hook_level() < 3 && cart->GetBoundaryCondition(Direction_Left) == Grid::BoundaryCondition_Periodic;
		per[1] = tsim_hook_level() < 3 && cart->GetBoundaryCondition(Direction_Bottom) == Grid::BoundaryCondition_Periodic;
	}
	for (int p = 0; p < grid.GetActivePatchCount(); p++) {
		const GridPatch * patch = grid.GetActivePatch(p);
		const PatchBox & box = patch->GetPatchBox();
		const DataArray4D<double> & node = patch->GetDataState(0, DataLocation_Node);
		const DataArray4D<double> & edge = patch->GetDataState(0, DataLocation_REdge);
		const DataArray2D<double> & lon = patch->GetLongitude();
		const DataArray2D<double> & lat = patch->GetLatitude();
		tsim_hook_patch(iStep, patch->GetPatchIndex());
		for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) {
		for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++) {
			double x[3]; bool pole = false;
			if (cart) {
				double d[2] = {lon(i,j), lat(i,j)};
				double lo[2] = {cart->GetMinimumX(), cart->GetMinimumY()}, hi[2] = {cart->GetMaximumX(), cart->GetMaximumY()};
				for (int q = 0; q < 2; q++) {
					double w = hi[q] - lo[q]; x[q] = (d[q] - lo[q]) / w;
					if (per[q] && x[q] > 1.0 - 1.0e-9) x[q] -= 1.0;
				}
				x[2] = 0.0;
			} else {
				x[0] = cos(lat(i,j)) * cos(lon(i,j)); x[1] = cos(lat(i,j)) * sin(lon(i,j)); x[2] = sin(lat(i,j));
				pole = x[0] * x[0] + x[1] * x[1] < 1.0e-16;
			}
			for (int c = 0; c < nc; c++) {
				bool onEdge = grid.GetVarLocation(c) == DataLocation_REdge;
				if (c < 2 && !cart) continue;
				const DataArray4D<double> & D = onEdge ? edge : node;
				for (int k = 0; k < nr + (onEdge ? 1 : 0); k++) tsim_hook_node(iStep, x, k, c, D(c,i,j,k));
			}
			// wind as a vector in space
			if (!cart && !pole) {
				for (int k = 0; k < nr; k++) {
					double u, v;
					CubedSphereTrans::CoVecTransRLLFromABP(
						tan(patch->GetANode(i)), tan(patch->GetBNode(j)), box.GetPanel(),
						node(0,i,j,k), node(1,i,j,k), u, v);
					double w[3] = {-sin(lon(i,j)) * u - sin(lat(i,j)) * cos(lon(i,j)) * v,
						cos(lon(i,j)) * u - sin(lat(i,j)) * sin(lon(i,j)) * v, cos(lat(i,j)) * v};
					for (int q = 0; q < 3; q++) tsim_hook_node(iStep, x, k, 100 + q, w[q]);
				}
			}
			if (nt > 0) {
				const DataArray4D<double> & tr = patch->GetDataTracers(0);
				for (int c = 0; c < nt; c++) for (int k = 0; k < nr; k++) tsim_hook_node(iStep, x, k, 200 + c, tr(c,i,j,k));
			}
		}
		}
	}
}
