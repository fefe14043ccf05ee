#pragma once
#include "google/cloud/fake_gcs.h"
