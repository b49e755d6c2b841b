// Stand-in for the FleCSI execution model as the drivers use it: an MPI task is
// a function every process runs.
#pragma once
#define flecsi_register_mpi_task(task, space)
#define flecsi_execute_mpi_task(task, space, ...) task(__VA_ARGS__)
