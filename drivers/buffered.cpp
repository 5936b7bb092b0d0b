#include "fbpcf/io/api/BufferedReader.cpp"
#include "fbpcf/io/api/BufferedWriter.cpp"
#include "fbpcf/io/api/FileIOWrappers.cpp"
