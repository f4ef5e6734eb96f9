/* Simulated PETSc: the subset dgswemv2 uses. Values and signatures follow PETSc 3.19 (real, 32-bit indices). */
#ifndef SIM_PETSCKSP_H
#define SIM_PETSCKSP_H
#include "mpi.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscInt;
typedef int PetscErrorCode;
typedef double PetscScalar;
typedef double PetscReal;
typedef int PetscLogStage;
typedef struct sim_vec* Vec;
typedef struct sim_mat* Mat;
typedef struct sim_is* IS;
typedef struct sim_ksp* KSP;
typedef struct sim_pc* PC;
typedef struct sim_scatter* VecScatter;
typedef const char* PCType;
typedef const char* MatType;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef enum { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES, MAX_VALUES } InsertMode;
typedef enum { NORM_1 = 0, NORM_2 = 1, NORM_FROBENIUS = 2, NORM_INFINITY = 3 } NormType;
typedef enum { SCATTER_FORWARD = 0, SCATTER_REVERSE = 1 } ScatterMode;
typedef enum { MAT_FLUSH_ASSEMBLY = 1, MAT_FINAL_ASSEMBLY = 0 } MatAssemblyType;
typedef enum { MAT_ROW_ORIENTED = 1, MAT_SYMMETRIC = 2, MAT_NEW_NONZERO_LOCATIONS = 7, MAT_NEW_NONZERO_LOCATION_ERR = 11,
               MAT_NEW_NONZERO_ALLOCATION_ERR = 19 } MatOption;
typedef enum { PETSC_COPY_VALUES, PETSC_OWN_POINTER, PETSC_USE_POINTER } PetscCopyMode;
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE PETSC_DECIDE
#define PETSC_DEFAULT (-2)
#define PCLU "lu"
#define PCNONE "none"
#define PCJACOBI "jacobi"
#define PCBJACOBI "bjacobi"
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_COMM_SELF MPI_COMM_SELF
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscLogStageRegister(const char*, PetscLogStage*);
PetscErrorCode PetscLogStagePush(PetscLogStage);
PetscErrorCode PetscLogStagePop(void);
PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt, const PetscInt*, PetscCopyMode, IS*);
PetscErrorCode ISCreateBlock(MPI_Comm, PetscInt, PetscInt, const PetscInt*, PetscCopyMode, IS*);
PetscErrorCode ISCreateStride(MPI_Comm, PetscInt, PetscInt, PetscInt, IS*);
PetscErrorCode ISDestroy(IS*);
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt, PetscInt, Vec*);
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt, Vec*);
PetscErrorCode VecSetBlockSize(Vec, PetscInt);
PetscErrorCode VecDestroy(Vec*);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecZeroEntries(Vec);
PetscErrorCode VecSetValues(Vec, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode VecSetValuesBlocked(Vec, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode VecAssemblyBegin(Vec);
PetscErrorCode VecAssemblyEnd(Vec);
PetscErrorCode VecGetArray(Vec, PetscScalar**);
PetscErrorCode VecRestoreArray(Vec, PetscScalar**);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecGetLocalSize(Vec, PetscInt*);
PetscErrorCode VecGetSize(Vec, PetscInt*);
PetscErrorCode VecGetOwnershipRange(Vec, PetscInt*, PetscInt*);
PetscErrorCode VecNorm(Vec, NormType, PetscReal*);
PetscErrorCode VecScatterCreate(Vec, IS, Vec, IS, VecScatter*);
PetscErrorCode VecScatterBegin(VecScatter, Vec, Vec, InsertMode, ScatterMode);
PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec, InsertMode, ScatterMode);
PetscErrorCode VecScatterDestroy(VecScatter*);
PetscErrorCode MatCreate(MPI_Comm, Mat*);
PetscErrorCode MatCreateBAIJ(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, PetscInt, PetscInt, const PetscInt*, PetscInt,
                             const PetscInt*, Mat*);
PetscErrorCode MatSetSizes(Mat, PetscInt, PetscInt, PetscInt, PetscInt);
PetscErrorCode MatSetUp(Mat);
PetscErrorCode MatSetOption(Mat, MatOption, PetscBool);
PetscErrorCode MatSetValues(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode MatSetValuesBlocked(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType);
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType);
PetscErrorCode MatZeroEntries(Mat);
PetscErrorCode MatDestroy(Mat*);
PetscErrorCode KSPCreate(MPI_Comm, KSP*);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPGetPC(KSP, PC*);
PetscErrorCode KSPSolve(KSP, Vec, Vec);
PetscErrorCode KSPDestroy(KSP*);
PetscErrorCode PCSetType(PC, PCType);
#ifdef __cplusplus
}
#endif
#endif
