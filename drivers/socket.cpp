#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp"
