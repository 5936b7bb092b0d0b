#include "fbpcf/io/api/CloudFileWriter.cpp"
#include "fbpcf/io/api/FileWriter.cpp"
