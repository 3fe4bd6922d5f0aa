/* stands in for the header of cppp-platform, which is not here: the platform is chosen by -D options */
#pragma once
