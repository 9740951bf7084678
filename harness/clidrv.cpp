// Sessions driven through their interface, for TraceCli.tla.
// usage: clidrv STIMULI OUT FIRST SCRATCHDIR
#include "driver.hpp"

int main(int argc, char** argv)
{
    return DriverMain(argc, argv, [](const std::string& scratch) { return std::make_unique<Driver>(scratch); });
}
