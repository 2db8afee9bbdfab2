#pragma once
#include <juce_standin.h>
