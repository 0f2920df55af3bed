#ifndef R4PY_SIM_MPI4PY_H
#define R4PY_SIM_MPI4PY_H
#include <Python.h>
#include "mpi.h"
#ifdef __cplusplus
extern "C" {
#endif
extern PyTypeObject* fakempi_comm_type;
int fakempi_import(void);
PyObject* fakempi_comm_new(MPI_Comm);
MPI_Comm* fakempi_comm_get(PyObject*);
#ifdef __cplusplus
}
#endif
#define import_mpi4py() fakempi_import()
#define PyMPIComm_Type (*fakempi_comm_type)
#define PyMPIComm_New(c) fakempi_comm_new(c)
#define PyMPIComm_Get(o) fakempi_comm_get(o)
#endif
