#include "fbpcf/engine/SecretShareEngine.cpp"
