// Conformance driver for data sets (spec: DataSet.tla).
#include "dataset.h"
int main(int c, char** v) { return driverMain<DataWorld>(c, v); }
