#include "fbpcf/io/api/CloudFileReader.cpp"
#include "fbpcf/io/api/FileReader.cpp"
