#pragma once
#include <tesseract/collision/managers.h>
