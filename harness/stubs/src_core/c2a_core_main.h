// Stand-in for C2A (absent here): just enough for components/real/communication/wings_command_sender_to_c2a.cpp
#pragma once
#define C2A_CORE_VER_MAJOR 4
