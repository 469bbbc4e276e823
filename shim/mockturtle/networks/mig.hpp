// Stand-in for mockturtle/networks/mig.hpp: name only, nothing simulated uses the network
#pragma once
namespace mockturtle
{
class mig_network;
}
