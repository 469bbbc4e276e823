// Stand-in for mockturtle/networks/xag.hpp: name only, nothing simulated uses the network
#pragma once
namespace mockturtle
{
class xag_network;
}
