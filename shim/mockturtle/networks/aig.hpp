// Stand-in for mockturtle/networks/aig.hpp: name only, nothing simulated uses the network
#pragma once
namespace mockturtle
{
class aig_network;
}
