static const uint32_t SEED_G[] = {
2,0x80000020U,0x80000020U,
3,0x80000020U,0x308U,0x80000020U,
2,0x80000020U,0x8000000DU,
3,0x80000020U,0x308U,0x8000000DU,
2,0x80000020U,0x8000000AU,
3,0x80000020U,0x308U,0x8000000AU,
2,0x80000020U,0x80000001U,
3,0x80000020U,0x308U,0x80000001U,
2,0x80000020U,0x34FU,
3,0x80000020U,0x308U,0x34FU,
2,0x80000020U,0x8001F1E6U,
3,0x80000020U,0x308U,0x8001F1E6U,
2,0x80000020U,0x80000600U,
3,0x80000020U,0x308U,0x80000600U,
2,0x80000020U,0x903U,
3,0x80000020U,0x308U,0x903U,
2,0x80000020U,0x80001100U,
3,0x80000020U,0x308U,0x80001100U,
2,0x80000020U,0x80001160U,
3,0x80000020U,0x308U,0x80001160U,
2,0x80000020U,0x800011A8U,
3,0x80000020U,0x308U,0x800011A8U,
2,0x80000020U,0x8000AC00U,
3,0x80000020U,0x308U,0x8000AC00U,
2,0x80000020U,0x8000AC01U,
3,0x80000020U,0x308U,0x8000AC01U,
2,0x80000020U,0x8000231AU,
3,0x80000020U,0x308U,0x8000231AU,
2,0x80000020U,0x300U,
3,0x80000020U,0x308U,0x300U,
2,0x80000020U,0x200DU,
3,0x80000020U,0x308U,0x200DU,
2,0x80000020U,0x80000378U,
3,0x80000020U,0x308U,0x80000378U,
2,0x8000000DU,0x80000020U,
3,0x8000000DU,0x80000308U,0x80000020U,
2,0x8000000DU,0x8000000DU,
3,0x8000000DU,0x80000308U,0x8000000DU,
2,0x8000000DU,0xAU,
3,0x8000000DU,0x80000308U,0x8000000AU,
2,0x8000000DU,0x80000001U,
3,0x8000000DU,0x80000308U,0x80000001U,
2,0x8000000DU,0x8000034FU,
3,0x8000000DU,0x80000308U,0x34FU,
2,0x8000000DU,0x8001F1E6U,
3,0x8000000DU,0x80000308U,0x8001F1E6U,
2,0x8000000DU,0x80000600U,
3,0x8000000DU,0x80000308U,0x80000600U,
2,0x8000000DU,0x80000903U,
3,0x8000000DU,0x80000308U,0x903U,
2,0x8000000DU,0x80001100U,
3,0x8000000DU,0x80000308U,0x80001100U,
2,0x8000000DU,0x80001160U,
3,0x8000000DU,0x80000308U,0x80001160U,
2,0x8000000DU,0x800011A8U,
3,0x8000000DU,0x80000308U,0x800011A8U,
2,0x8000000DU,0x8000AC00U,
3,0x8000000DU,0x80000308U,0x8000AC00U,
2,0x8000000DU,0x8000AC01U,
3,0x8000000DU,0x80000308U,0x8000AC01U,
2,0x8000000DU,0x8000231AU,
3,0x8000000DU,0x80000308U,0x8000231AU,
2,0x8000000DU,0x80000300U,
3,0x8000000DU,0x80000308U,0x300U,
2,0x8000000DU,0x8000200DU,
3,0x8000000DU,0x80000308U,0x200DU,
2,0x8000000DU,0x80000378U,
3,0x8000000DU,0x80000308U,0x80000378U,
2,0x8000000AU,0x80000020U,
3,0x8000000AU,0x80000308U,0x80000020U,
2,0x8000000AU,0x8000000DU,
3,0x8000000AU,0x80000308U,0x8000000DU,
2,0x8000000AU,0x8000000AU,
3,0x8000000AU,0x80000308U,0x8000000AU,
2,0x8000000AU,0x80000001U,
3,0x8000000AU,0x80000308U,0x80000001U,
2,0x8000000AU,0x8000034FU,
3,0x8000000AU,0x80000308U,0x34FU,
2,0x8000000AU,0x8001F1E6U,
3,0x8000000AU,0x80000308U,0x8001F1E6U,
2,0x8000000AU,0x80000600U,
3,0x8000000AU,0x80000308U,0x80000600U,
2,0x8000000AU,0x80000903U,
3,0x8000000AU,0x80000308U,0x903U,
2,0x8000000AU,0x80001100U,
3,0x8000000AU,0x80000308U,0x80001100U,
2,0x8000000AU,0x80001160U,
3,0x8000000AU,0x80000308U,0x80001160U,
2,0x8000000AU,0x800011A8U,
3,0x8000000AU,0x80000308U,0x800011A8U,
2,0x8000000AU,0x8000AC00U,
3,0x8000000AU,0x80000308U,0x8000AC00U,
2,0x8000000AU,0x8000AC01U,
3,0x8000000AU,0x80000308U,0x8000AC01U,
2,0x8000000AU,0x8000231AU,
3,0x8000000AU,0x80000308U,0x8000231AU,
2,0x8000000AU,0x80000300U,
3,0x8000000AU,0x80000308U,0x300U,
2,0x8000000AU,0x8000200DU,
3,0x8000000AU,0x80000308U,0x200DU,
2,0x8000000AU,0x80000378U,
3,0x8000000AU,0x80000308U,0x80000378U,
2,0x80000001U,0x80000020U,
3,0x80000001U,0x80000308U,0x80000020U,
2,0x80000001U,0x8000000DU,
3,0x80000001U,0x80000308U,0x8000000DU,
2,0x80000001U,0x8000000AU,
3,0x80000001U,0x80000308U,0x8000000AU,
2,0x80000001U,0x80000001U,
3,0x80000001U,0x80000308U,0x80000001U,
2,0x80000001U,0x8000034FU,
3,0x80000001U,0x80000308U,0x34FU,
2,0x80000001U,0x8001F1E6U,
3,0x80000001U,0x80000308U,0x8001F1E6U,
2,0x80000001U,0x80000600U,
3,0x80000001U,0x80000308U,0x80000600U,
2,0x80000001U,0x80000903U,
3,0x80000001U,0x80000308U,0x903U,
2,0x80000001U,0x80001100U,
3,0x80000001U,0x80000308U,0x80001100U,
2,0x80000001U,0x80001160U,
3,0x80000001U,0x80000308U,0x80001160U,
2,0x80000001U,0x800011A8U,
3,0x80000001U,0x80000308U,0x800011A8U,
2,0x80000001U,0x8000AC00U,
3,0x80000001U,0x80000308U,0x8000AC00U,
2,0x80000001U,0x8000AC01U,
3,0x80000001U,0x80000308U,0x8000AC01U,
2,0x80000001U,0x8000231AU,
3,0x80000001U,0x80000308U,0x8000231AU,
2,0x80000001U,0x80000300U,
3,0x80000001U,0x80000308U,0x300U,
2,0x80000001U,0x8000200DU,
3,0x80000001U,0x80000308U,0x200DU,
2,0x80000001U,0x80000378U,
3,0x80000001U,0x80000308U,0x80000378U,
2,0x8000034FU,0x80000020U,
3,0x8000034FU,0x308U,0x80000020U,
2,0x8000034FU,0x8000000DU,
3,0x8000034FU,0x308U,0x8000000DU,
2,0x8000034FU,0x8000000AU,
3,0x8000034FU,0x308U,0x8000000AU,
2,0x8000034FU,0x80000001U,
3,0x8000034FU,0x308U,0x80000001U,
2,0x8000034FU,0x34FU,
3,0x8000034FU,0x308U,0x34FU,
2,0x8000034FU,0x8001F1E6U,
3,0x8000034FU,0x308U,0x8001F1E6U,
2,0x8000034FU,0x80000600U,
3,0x8000034FU,0x308U,0x80000600U,
2,0x8000034FU,0x903U,
3,0x8000034FU,0x308U,0x903U,
2,0x8000034FU,0x80001100U,
3,0x8000034FU,0x308U,0x80001100U,
2,0x8000034FU,0x80001160U,
3,0x8000034FU,0x308U,0x80001160U,
2,0x8000034FU,0x800011A8U,
3,0x8000034FU,0x308U,0x800011A8U,
2,0x8000034FU,0x8000AC00U,
3,0x8000034FU,0x308U,0x8000AC00U,
2,0x8000034FU,0x8000AC01U,
3,0x8000034FU,0x308U,0x8000AC01U,
2,0x8000034FU,0x8000231AU,
3,0x8000034FU,0x308U,0x8000231AU,
2,0x8000034FU,0x300U,
3,0x8000034FU,0x308U,0x300U,
2,0x8000034FU,0x200DU,
3,0x8000034FU,0x308U,0x200DU,
2,0x8000034FU,0x80000378U,
3,0x8000034FU,0x308U,0x80000378U,
2,0x8001F1E6U,0x80000020U,
3,0x8001F1E6U,0x308U,0x80000020U,
2,0x8001F1E6U,0x8000000DU,
3,0x8001F1E6U,0x308U,0x8000000DU,
2,0x8001F1E6U,0x8000000AU,
3,0x8001F1E6U,0x308U,0x8000000AU,
2,0x8001F1E6U,0x80000001U,
3,0x8001F1E6U,0x308U,0x80000001U,
2,0x8001F1E6U,0x34FU,
3,0x8001F1E6U,0x308U,0x34FU,
2,0x8001F1E6U,0x1F1E6U,
3,0x8001F1E6U,0x308U,0x8001F1E6U,
2,0x8001F1E6U,0x80000600U,
3,0x8001F1E6U,0x308U,0x80000600U,
2,0x8001F1E6U,0x903U,
3,0x8001F1E6U,0x308U,0x903U,
2,0x8001F1E6U,0x80001100U,
3,0x8001F1E6U,0x308U,0x80001100U,
2,0x8001F1E6U,0x80001160U,
3,0x8001F1E6U,0x308U,0x80001160U,
2,0x8001F1E6U,0x800011A8U,
3,0x8001F1E6U,0x308U,0x800011A8U,
2,0x8001F1E6U,0x8000AC00U,
3,0x8001F1E6U,0x308U,0x8000AC00U,
2,0x8001F1E6U,0x8000AC01U,
3,0x8001F1E6U,0x308U,0x8000AC01U,
2,0x8001F1E6U,0x8000231AU,
3,0x8001F1E6U,0x308U,0x8000231AU,
2,0x8001F1E6U,0x300U,
3,0x8001F1E6U,0x308U,0x300U,
2,0x8001F1E6U,0x200DU,
3,0x8001F1E6U,0x308U,0x200DU,
2,0x8001F1E6U,0x80000378U,
3,0x8001F1E6U,0x308U,0x80000378U,
2,0x80000600U,0x20U,
3,0x80000600U,0x308U,0x80000020U,
2,0x80000600U,0x8000000DU,
3,0x80000600U,0x308U,0x8000000DU,
2,0x80000600U,0x8000000AU,
3,0x80000600U,0x308U,0x8000000AU,
2,0x80000600U,0x80000001U,
3,0x80000600U,0x308U,0x80000001U,
2,0x80000600U,0x34FU,
3,0x80000600U,0x308U,0x34FU,
2,0x80000600U,0x1F1E6U,
3,0x80000600U,0x308U,0x8001F1E6U,
2,0x80000600U,0x600U,
3,0x80000600U,0x308U,0x80000600U,
2,0x80000600U,0x903U,
3,0x80000600U,0x308U,0x903U,
2,0x80000600U,0x1100U,
3,0x80000600U,0x308U,0x80001100U,
2,0x80000600U,0x1160U,
3,0x80000600U,0x308U,0x80001160U,
2,0x80000600U,0x11A8U,
3,0x80000600U,0x308U,0x800011A8U,
2,0x80000600U,0xAC00U,
3,0x80000600U,0x308U,0x8000AC00U,
2,0x80000600U,0xAC01U,
3,0x80000600U,0x308U,0x8000AC01U,
2,0x80000600U,0x231AU,
3,0x80000600U,0x308U,0x8000231AU,
2,0x80000600U,0x300U,
3,0x80000600U,0x308U,0x300U,
2,0x80000600U,0x200DU,
3,0x80000600U,0x308U,0x200DU,
2,0x80000600U,0x378U,
3,0x80000600U,0x308U,0x80000378U,
2,0x80000903U,0x80000020U,
3,0x80000903U,0x308U,0x80000020U,
2,0x80000903U,0x8000000DU,
3,0x80000903U,0x308U,0x8000000DU,
2,0x80000903U,0x8000000AU,
3,0x80000903U,0x308U,0x8000000AU,
2,0x80000903U,0x80000001U,
3,0x80000903U,0x308U,0x80000001U,
2,0x80000903U,0x34FU,
3,0x80000903U,0x308U,0x34FU,
2,0x80000903U,0x8001F1E6U,
3,0x80000903U,0x308U,0x8001F1E6U,
2,0x80000903U,0x80000600U,
3,0x80000903U,0x308U,0x80000600U,
2,0x80000903U,0x903U,
3,0x80000903U,0x308U,0x903U,
2,0x80000903U,0x80001100U,
3,0x80000903U,0x308U,0x80001100U,
2,0x80000903U,0x80001160U,
3,0x80000903U,0x308U,0x80001160U,
2,0x80000903U,0x800011A8U,
3,0x80000903U,0x308U,0x800011A8U,
2,0x80000903U,0x8000AC00U,
3,0x80000903U,0x308U,0x8000AC00U,
2,0x80000903U,0x8000AC01U,
3,0x80000903U,0x308U,0x8000AC01U,
2,0x80000903U,0x8000231AU,
3,0x80000903U,0x308U,0x8000231AU,
2,0x80000903U,0x300U,
3,0x80000903U,0x308U,0x300U,
2,0x80000903U,0x200DU,
3,0x80000903U,0x308U,0x200DU,
2,0x80000903U,0x80000378U,
3,0x80000903U,0x308U,0x80000378U,
2,0x80001100U,0x80000020U,
3,0x80001100U,0x308U,0x80000020U,
2,0x80001100U,0x8000000DU,
3,0x80001100U,0x308U,0x8000000DU,
2,0x80001100U,0x8000000AU,
3,0x80001100U,0x308U,0x8000000AU,
2,0x80001100U,0x80000001U,
3,0x80001100U,0x308U,0x80000001U,
2,0x80001100U,0x34FU,
3,0x80001100U,0x308U,0x34FU,
2,0x80001100U,0x8001F1E6U,
3,0x80001100U,0x308U,0x8001F1E6U,
2,0x80001100U,0x80000600U,
3,0x80001100U,0x308U,0x80000600U,
2,0x80001100U,0x903U,
3,0x80001100U,0x308U,0x903U,
2,0x80001100U,0x1100U,
3,0x80001100U,0x308U,0x80001100U,
2,0x80001100U,0x1160U,
3,0x80001100U,0x308U,0x80001160U,
2,0x80001100U,0x800011A8U,
3,0x80001100U,0x308U,0x800011A8U,
2,0x80001100U,0xAC00U,
3,0x80001100U,0x308U,0x8000AC00U,
2,0x80001100U,0xAC01U,
3,0x80001100U,0x308U,0x8000AC01U,
2,0x80001100U,0x8000231AU,
3,0x80001100U,0x308U,0x8000231AU,
2,0x80001100U,0x300U,
3,0x80001100U,0x308U,0x300U,
2,0x80001100U,0x200DU,
3,0x80001100U,0x308U,0x200DU,
2,0x80001100U,0x80000378U,
3,0x80001100U,0x308U,0x80000378U,
2,0x80001160U,0x80000020U,
3,0x80001160U,0x308U,0x80000020U,
2,0x80001160U,0x8000000DU,
3,0x80001160U,0x308U,0x8000000DU,
2,0x80001160U,0x8000000AU,
3,0x80001160U,0x308U,0x8000000AU,
2,0x80001160U,0x80000001U,
3,0x80001160U,0x308U,0x80000001U,
2,0x80001160U,0x34FU,
3,0x80001160U,0x308U,0x34FU,
2,0x80001160U,0x8001F1E6U,
3,0x80001160U,0x308U,0x8001F1E6U,
2,0x80001160U,0x80000600U,
3,0x80001160U,0x308U,0x80000600U,
2,0x80001160U,0x903U,
3,0x80001160U,0x308U,0x903U,
2,0x80001160U,0x80001100U,
3,0x80001160U,0x308U,0x80001100U,
2,0x80001160U,0x1160U,
3,0x80001160U,0x308U,0x80001160U,
2,0x80001160U,0x11A8U,
3,0x80001160U,0x308U,0x800011A8U,
2,0x80001160U,0x8000AC00U,
3,0x80001160U,0x308U,0x8000AC00U,
2,0x80001160U,0x8000AC01U,
3,0x80001160U,0x308U,0x8000AC01U,
2,0x80001160U,0x8000231AU,
3,0x80001160U,0x308U,0x8000231AU,
2,0x80001160U,0x300U,
3,0x80001160U,0x308U,0x300U,
2,0x80001160U,0x200DU,
3,0x80001160U,0x308U,0x200DU,
2,0x80001160U,0x80000378U,
3,0x80001160U,0x308U,0x80000378U,
2,0x800011A8U,0x80000020U,
3,0x800011A8U,0x308U,0x80000020U,
2,0x800011A8U,0x8000000DU,
3,0x800011A8U,0x308U,0x8000000DU,
2,0x800011A8U,0x8000000AU,
3,0x800011A8U,0x308U,0x8000000AU,
2,0x800011A8U,0x80000001U,
3,0x800011A8U,0x308U,0x80000001U,
2,0x800011A8U,0x34FU,
3,0x800011A8U,0x308U,0x34FU,
2,0x800011A8U,0x8001F1E6U,
3,0x800011A8U,0x308U,0x8001F1E6U,
2,0x800011A8U,0x80000600U,
3,0x800011A8U,0x308U,0x80000600U,
2,0x800011A8U,0x903U,
3,0x800011A8U,0x308U,0x903U,
2,0x800011A8U,0x80001100U,
3,0x800011A8U,0x308U,0x80001100U,
2,0x800011A8U,0x80001160U,
3,0x800011A8U,0x308U,0x80001160U,
2,0x800011A8U,0x11A8U,
3,0x800011A8U,0x308U,0x800011A8U,
2,0x800011A8U,0x8000AC00U,
3,0x800011A8U,0x308U,0x8000AC00U,
2,0x800011A8U,0x8000AC01U,
3,0x800011A8U,0x308U,0x8000AC01U,
2,0x800011A8U,0x8000231AU,
3,0x800011A8U,0x308U,0x8000231AU,
2,0x800011A8U,0x300U,
3,0x800011A8U,0x308U,0x300U,
2,0x800011A8U,0x200DU,
3,0x800011A8U,0x308U,0x200DU,
2,0x800011A8U,0x80000378U,
3,0x800011A8U,0x308U,0x80000378U,
2,0x8000AC00U,0x80000020U,
3,0x8000AC00U,0x308U,0x80000020U,
2,0x8000AC00U,0x8000000DU,
3,0x8000AC00U,0x308U,0x8000000DU,
2,0x8000AC00U,0x8000000AU,
3,0x8000AC00U,0x308U,0x8000000AU,
2,0x8000AC00U,0x80000001U,
3,0x8000AC00U,0x308U,0x80000001U,
2,0x8000AC00U,0x34FU,
3,0x8000AC00U,0x308U,0x34FU,
2,0x8000AC00U,0x8001F1E6U,
3,0x8000AC00U,0x308U,0x8001F1E6U,
2,0x8000AC00U,0x80000600U,
3,0x8000AC00U,0x308U,0x80000600U,
2,0x8000AC00U,0x903U,
3,0x8000AC00U,0x308U,0x903U,
2,0x8000AC00U,0x80001100U,
3,0x8000AC00U,0x308U,0x80001100U,
2,0x8000AC00U,0x1160U,
3,0x8000AC00U,0x308U,0x80001160U,
2,0x8000AC00U,0x11A8U,
3,0x8000AC00U,0x308U,0x800011A8U,
2,0x8000AC00U,0x8000AC00U,
3,0x8000AC00U,0x308U,0x8000AC00U,
2,0x8000AC00U,0x8000AC01U,
3,0x8000AC00U,0x308U,0x8000AC01U,
2,0x8000AC00U,0x8000231AU,
3,0x8000AC00U,0x308U,0x8000231AU,
2,0x8000AC00U,0x300U,
3,0x8000AC00U,0x308U,0x300U,
2,0x8000AC00U,0x200DU,
3,0x8000AC00U,0x308U,0x200DU,
2,0x8000AC00U,0x80000378U,
3,0x8000AC00U,0x308U,0x80000378U,
2,0x8000AC01U,0x80000020U,
3,0x8000AC01U,0x308U,0x80000020U,
2,0x8000AC01U,0x8000000DU,
3,0x8000AC01U,0x308U,0x8000000DU,
2,0x8000AC01U,0x8000000AU,
3,0x8000AC01U,0x308U,0x8000000AU,
2,0x8000AC01U,0x80000001U,
3,0x8000AC01U,0x308U,0x80000001U,
2,0x8000AC01U,0x34FU,
3,0x8000AC01U,0x308U,0x34FU,
2,0x8000AC01U,0x8001F1E6U,
3,0x8000AC01U,0x308U,0x8001F1E6U,
2,0x8000AC01U,0x80000600U,
3,0x8000AC01U,0x308U,0x80000600U,
2,0x8000AC01U,0x903U,
3,0x8000AC01U,0x308U,0x903U,
2,0x8000AC01U,0x80001100U,
3,0x8000AC01U,0x308U,0x80001100U,
2,0x8000AC01U,0x80001160U,
3,0x8000AC01U,0x308U,0x80001160U,
2,0x8000AC01U,0x11A8U,
3,0x8000AC01U,0x308U,0x800011A8U,
2,0x8000AC01U,0x8000AC00U,
3,0x8000AC01U,0x308U,0x8000AC00U,
2,0x8000AC01U,0x8000AC01U,
3,0x8000AC01U,0x308U,0x8000AC01U,
2,0x8000AC01U,0x8000231AU,
3,0x8000AC01U,0x308U,0x8000231AU,
2,0x8000AC01U,0x300U,
3,0x8000AC01U,0x308U,0x300U,
2,0x8000AC01U,0x200DU,
3,0x8000AC01U,0x308U,0x200DU,
2,0x8000AC01U,0x80000378U,
3,0x8000AC01U,0x308U,0x80000378U,
2,0x8000231AU,0x80000020U,
3,0x8000231AU,0x308U,0x80000020U,
2,0x8000231AU,0x8000000DU,
3,0x8000231AU,0x308U,0x8000000DU,
2,0x8000231AU,0x8000000AU,
3,0x8000231AU,0x308U,0x8000000AU,
2,0x8000231AU,0x80000001U,
3,0x8000231AU,0x308U,0x80000001U,
2,0x8000231AU,0x34FU,
3,0x8000231AU,0x308U,0x34FU,
2,0x8000231AU,0x8001F1E6U,
3,0x8000231AU,0x308U,0x8001F1E6U,
2,0x8000231AU,0x80000600U,
3,0x8000231AU,0x308U,0x80000600U,
2,0x8000231AU,0x903U,
3,0x8000231AU,0x308U,0x903U,
2,0x8000231AU,0x80001100U,
3,0x8000231AU,0x308U,0x80001100U,
2,0x8000231AU,0x80001160U,
3,0x8000231AU,0x308U,0x80001160U,
2,0x8000231AU,0x800011A8U,
3,0x8000231AU,0x308U,0x800011A8U,
2,0x8000231AU,0x8000AC00U,
3,0x8000231AU,0x308U,0x8000AC00U,
2,0x8000231AU,0x8000AC01U,
3,0x8000231AU,0x308U,0x8000AC01U,
2,0x8000231AU,0x8000231AU,
3,0x8000231AU,0x308U,0x8000231AU,
2,0x8000231AU,0x300U,
3,0x8000231AU,0x308U,0x300U,
2,0x8000231AU,0x200DU,
3,0x8000231AU,0x308U,0x200DU,
2,0x8000231AU,0x80000378U,
3,0x8000231AU,0x308U,0x80000378U,
2,0x80000300U,0x80000020U,
3,0x80000300U,0x308U,0x80000020U,
2,0x80000300U,0x8000000DU,
3,0x80000300U,0x308U,0x8000000DU,
2,0x80000300U,0x8000000AU,
3,0x80000300U,0x308U,0x8000000AU,
2,0x80000300U,0x80000001U,
3,0x80000300U,0x308U,0x80000001U,
2,0x80000300U,0x34FU,
3,0x80000300U,0x308U,0x34FU,
2,0x80000300U,0x8001F1E6U,
3,0x80000300U,0x308U,0x8001F1E6U,
2,0x80000300U,0x80000600U,
3,0x80000300U,0x308U,0x80000600U,
2,0x80000300U,0x903U,
3,0x80000300U,0x308U,0x903U,
2,0x80000300U,0x80001100U,
3,0x80000300U,0x308U,0x80001100U,
2,0x80000300U,0x80001160U,
3,0x80000300U,0x308U,0x80001160U,
2,0x80000300U,0x800011A8U,
3,0x80000300U,0x308U,0x800011A8U,
2,0x80000300U,0x8000AC00U,
3,0x80000300U,0x308U,0x8000AC00U,
2,0x80000300U,0x8000AC01U,
3,0x80000300U,0x308U,0x8000AC01U,
2,0x80000300U,0x8000231AU,
3,0x80000300U,0x308U,0x8000231AU,
2,0x80000300U,0x300U,
3,0x80000300U,0x308U,0x300U,
2,0x80000300U,0x200DU,
3,0x80000300U,0x308U,0x200DU,
2,0x80000300U,0x80000378U,
3,0x80000300U,0x308U,0x80000378U,
2,0x8000200DU,0x80000020U,
3,0x8000200DU,0x308U,0x80000020U,
2,0x8000200DU,0x8000000DU,
3,0x8000200DU,0x308U,0x8000000DU,
2,0x8000200DU,0x8000000AU,
3,0x8000200DU,0x308U,0x8000000AU,
2,0x8000200DU,0x80000001U,
3,0x8000200DU,0x308U,0x80000001U,
2,0x8000200DU,0x34FU,
3,0x8000200DU,0x308U,0x34FU,
2,0x8000200DU,0x8001F1E6U,
3,0x8000200DU,0x308U,0x8001F1E6U,
2,0x8000200DU,0x80000600U,
3,0x8000200DU,0x308U,0x80000600U,
2,0x8000200DU,0x903U,
3,0x8000200DU,0x308U,0x903U,
2,0x8000200DU,0x80001100U,
3,0x8000200DU,0x308U,0x80001100U,
2,0x8000200DU,0x80001160U,
3,0x8000200DU,0x308U,0x80001160U,
2,0x8000200DU,0x800011A8U,
3,0x8000200DU,0x308U,0x800011A8U,
2,0x8000200DU,0x8000AC00U,
3,0x8000200DU,0x308U,0x8000AC00U,
2,0x8000200DU,0x8000AC01U,
3,0x8000200DU,0x308U,0x8000AC01U,
2,0x8000200DU,0x8000231AU,
3,0x8000200DU,0x308U,0x8000231AU,
2,0x8000200DU,0x300U,
3,0x8000200DU,0x308U,0x300U,
2,0x8000200DU,0x200DU,
3,0x8000200DU,0x308U,0x200DU,
2,0x8000200DU,0x80000378U,
3,0x8000200DU,0x308U,0x80000378U,
2,0x80000378U,0x80000020U,
3,0x80000378U,0x308U,0x80000020U,
2,0x80000378U,0x8000000DU,
3,0x80000378U,0x308U,0x8000000DU,
2,0x80000378U,0x8000000AU,
3,0x80000378U,0x308U,0x8000000AU,
2,0x80000378U,0x80000001U,
3,0x80000378U,0x308U,0x80000001U,
2,0x80000378U,0x34FU,
3,0x80000378U,0x308U,0x34FU,
2,0x80000378U,0x8001F1E6U,
3,0x80000378U,0x308U,0x8001F1E6U,
2,0x80000378U,0x80000600U,
3,0x80000378U,0x308U,0x80000600U,
2,0x80000378U,0x903U,
3,0x80000378U,0x308U,0x903U,
2,0x80000378U,0x80001100U,
3,0x80000378U,0x308U,0x80001100U,
2,0x80000378U,0x80001160U,
3,0x80000378U,0x308U,0x80001160U,
2,0x80000378U,0x800011A8U,
3,0x80000378U,0x308U,0x800011A8U,
2,0x80000378U,0x8000AC00U,
3,0x80000378U,0x308U,0x8000AC00U,
2,0x80000378U,0x8000AC01U,
3,0x80000378U,0x308U,0x8000AC01U,
2,0x80000378U,0x8000231AU,
3,0x80000378U,0x308U,0x8000231AU,
2,0x80000378U,0x300U,
3,0x80000378U,0x308U,0x300U,
2,0x80000378U,0x200DU,
3,0x80000378U,0x308U,0x200DU,
2,0x80000378U,0x80000378U,
3,0x80000378U,0x308U,0x80000378U,
5,0x8000000DU,0xAU,0x80000061U,0x8000000AU,0x80000308U,
2,0x80000061U,0x308U,
3,0x80000020U,0x200DU,0x80000646U,
3,0x80000646U,0x200DU,0x80000020U,
2,0x80001100U,0x1100U,
3,0x8000AC00U,0x11A8U,0x80001100U,
3,0x8000AC01U,0x11A8U,0x80001100U,
4,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x80000062U,
5,0x80000061U,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x1F1E7U,0x200DU,0x8001F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x200DU,0x8001F1E7U,0x1F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x1F1E9U,0x80000062U,
2,0x80000061U,0x200DU,
3,0x80000061U,0x308U,0x80000062U,
3,0x80000061U,0x903U,0x80000062U,
3,0x80000061U,0x80000600U,0x62U,
3,0x8001F476U,0x1F3FFU,0x8001F476U,
3,0x80000061U,0x1F3FFU,0x8001F476U,
5,0x80000061U,0x1F3FFU,0x8001F476U,0x200DU,0x1F6D1U,
6,0x8001F476U,0x1F3FFU,0x308U,0x200DU,0x1F476U,0x1F3FFU,
3,0x8001F6D1U,0x200DU,0x1F6D1U,
3,0x80000061U,0x200DU,0x8001F6D1U,
3,0x80002701U,0x200DU,0x2701U,
3,0x80000061U,0x200DU,0x80002701U,
0xFFFFFFFFU};
static const uint32_t SEED_W[] = {
2,0x80000001U,0x80000001U,
3,0x80000001U,0x308U,0x80000001U,
2,0x80000001U,0x8000000DU,
3,0x80000001U,0x308U,0x8000000DU,
2,0x80000001U,0x8000000AU,
3,0x80000001U,0x308U,0x8000000AU,
2,0x80000001U,0x8000000BU,
3,0x80000001U,0x308U,0x8000000BU,
2,0x80000001U,0x80003031U,
3,0x80000001U,0x308U,0x80003031U,
2,0x80000001U,0x80000041U,
3,0x80000001U,0x308U,0x80000041U,
2,0x80000001U,0x8000003AU,
3,0x80000001U,0x308U,0x8000003AU,
2,0x80000001U,0x8000002CU,
3,0x80000001U,0x308U,0x8000002CU,
2,0x80000001U,0x8000002EU,
3,0x80000001U,0x308U,0x8000002EU,
2,0x80000001U,0x80000030U,
3,0x80000001U,0x308U,0x80000030U,
2,0x80000001U,0x8000005FU,
3,0x80000001U,0x308U,0x8000005FU,
2,0x80000001U,0x8001F1E6U,
3,0x80000001U,0x308U,0x8001F1E6U,
2,0x80000001U,0x800005D0U,
3,0x80000001U,0x308U,0x800005D0U,
2,0x80000001U,0x80000022U,
3,0x80000001U,0x308U,0x80000022U,
2,0x80000001U,0x80000027U,
3,0x80000001U,0x308U,0x80000027U,
2,0x80000001U,0x8000231AU,
3,0x80000001U,0x308U,0x8000231AU,
2,0x80000001U,0x80000020U,
3,0x80000001U,0x308U,0x80000020U,
2,0x80000001U,0xADU,
3,0x80000001U,0x308U,0xADU,
2,0x80000001U,0x300U,
3,0x80000001U,0x308U,0x300U,
2,0x80000001U,0x200DU,
3,0x80000001U,0x308U,0x200DU,
3,0x80000001U,0x80000061U,0x2060U,
4,0x80000001U,0x308U,0x80000061U,0x2060U,
3,0x80000001U,0x80000061U,0x8000003AU,
4,0x80000001U,0x308U,0x80000061U,0x8000003AU,
3,0x80000001U,0x80000061U,0x80000027U,
4,0x80000001U,0x308U,0x80000061U,0x80000027U,
4,0x80000001U,0x80000061U,0x80000027U,0x2060U,
5,0x80000001U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80000001U,0x80000061U,0x8000002CU,
4,0x80000001U,0x308U,0x80000061U,0x8000002CU,
3,0x80000001U,0x80000031U,0x8000003AU,
4,0x80000001U,0x308U,0x80000031U,0x8000003AU,
3,0x80000001U,0x80000031U,0x80000027U,
4,0x80000001U,0x308U,0x80000031U,0x80000027U,
3,0x80000001U,0x80000031U,0x8000002CU,
4,0x80000001U,0x308U,0x80000031U,0x8000002CU,
4,0x80000001U,0x80000031U,0x8000002EU,0x2060U,
5,0x80000001U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000000DU,0x80000001U,
3,0x8000000DU,0x80000308U,0x80000001U,
2,0x8000000DU,0x8000000DU,
3,0x8000000DU,0x80000308U,0x8000000DU,
2,0x8000000DU,0xAU,
3,0x8000000DU,0x80000308U,0x8000000AU,
2,0x8000000DU,0x8000000BU,
3,0x8000000DU,0x80000308U,0x8000000BU,
2,0x8000000DU,0x80003031U,
3,0x8000000DU,0x80000308U,0x80003031U,
2,0x8000000DU,0x80000041U,
3,0x8000000DU,0x80000308U,0x80000041U,
2,0x8000000DU,0x8000003AU,
3,0x8000000DU,0x80000308U,0x8000003AU,
2,0x8000000DU,0x8000002CU,
3,0x8000000DU,0x80000308U,0x8000002CU,
2,0x8000000DU,0x8000002EU,
3,0x8000000DU,0x80000308U,0x8000002EU,
2,0x8000000DU,0x80000030U,
3,0x8000000DU,0x80000308U,0x80000030U,
2,0x8000000DU,0x8000005FU,
3,0x8000000DU,0x80000308U,0x8000005FU,
2,0x8000000DU,0x8001F1E6U,
3,0x8000000DU,0x80000308U,0x8001F1E6U,
2,0x8000000DU,0x800005D0U,
3,0x8000000DU,0x80000308U,0x800005D0U,
2,0x8000000DU,0x80000022U,
3,0x8000000DU,0x80000308U,0x80000022U,
2,0x8000000DU,0x80000027U,
3,0x8000000DU,0x80000308U,0x80000027U,
2,0x8000000DU,0x8000231AU,
3,0x8000000DU,0x80000308U,0x8000231AU,
2,0x8000000DU,0x80000020U,
3,0x8000000DU,0x80000308U,0x80000020U,
2,0x8000000DU,0x800000ADU,
3,0x8000000DU,0x80000308U,0xADU,
2,0x8000000DU,0x80000300U,
3,0x8000000DU,0x80000308U,0x300U,
2,0x8000000DU,0x8000200DU,
3,0x8000000DU,0x80000308U,0x200DU,
3,0x8000000DU,0x80000061U,0x2060U,
4,0x8000000DU,0x80000308U,0x80000061U,0x2060U,
3,0x8000000DU,0x80000061U,0x8000003AU,
4,0x8000000DU,0x80000308U,0x80000061U,0x8000003AU,
3,0x8000000DU,0x80000061U,0x80000027U,
4,0x8000000DU,0x80000308U,0x80000061U,0x80000027U,
4,0x8000000DU,0x80000061U,0x80000027U,0x2060U,
5,0x8000000DU,0x80000308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000000DU,0x80000061U,0x8000002CU,
4,0x8000000DU,0x80000308U,0x80000061U,0x8000002CU,
3,0x8000000DU,0x80000031U,0x8000003AU,
4,0x8000000DU,0x80000308U,0x80000031U,0x8000003AU,
3,0x8000000DU,0x80000031U,0x80000027U,
4,0x8000000DU,0x80000308U,0x80000031U,0x80000027U,
3,0x8000000DU,0x80000031U,0x8000002CU,
4,0x8000000DU,0x80000308U,0x80000031U,0x8000002CU,
4,0x8000000DU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000000DU,0x80000308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000000AU,0x80000001U,
3,0x8000000AU,0x80000308U,0x80000001U,
2,0x8000000AU,0x8000000DU,
3,0x8000000AU,0x80000308U,0x8000000DU,
2,0x8000000AU,0x8000000AU,
3,0x8000000AU,0x80000308U,0x8000000AU,
2,0x8000000AU,0x8000000BU,
3,0x8000000AU,0x80000308U,0x8000000BU,
2,0x8000000AU,0x80003031U,
3,0x8000000AU,0x80000308U,0x80003031U,
2,0x8000000AU,0x80000041U,
3,0x8000000AU,0x80000308U,0x80000041U,
2,0x8000000AU,0x8000003AU,
3,0x8000000AU,0x80000308U,0x8000003AU,
2,0x8000000AU,0x8000002CU,
3,0x8000000AU,0x80000308U,0x8000002CU,
2,0x8000000AU,0x8000002EU,
3,0x8000000AU,0x80000308U,0x8000002EU,
2,0x8000000AU,0x80000030U,
3,0x8000000AU,0x80000308U,0x80000030U,
2,0x8000000AU,0x8000005FU,
3,0x8000000AU,0x80000308U,0x8000005FU,
2,0x8000000AU,0x8001F1E6U,
3,0x8000000AU,0x80000308U,0x8001F1E6U,
2,0x8000000AU,0x800005D0U,
3,0x8000000AU,0x80000308U,0x800005D0U,
2,0x8000000AU,0x80000022U,
3,0x8000000AU,0x80000308U,0x80000022U,
2,0x8000000AU,0x80000027U,
3,0x8000000AU,0x80000308U,0x80000027U,
2,0x8000000AU,0x8000231AU,
3,0x8000000AU,0x80000308U,0x8000231AU,
2,0x8000000AU,0x80000020U,
3,0x8000000AU,0x80000308U,0x80000020U,
2,0x8000000AU,0x800000ADU,
3,0x8000000AU,0x80000308U,0xADU,
2,0x8000000AU,0x80000300U,
3,0x8000000AU,0x80000308U,0x300U,
2,0x8000000AU,0x8000200DU,
3,0x8000000AU,0x80000308U,0x200DU,
3,0x8000000AU,0x80000061U,0x2060U,
4,0x8000000AU,0x80000308U,0x80000061U,0x2060U,
3,0x8000000AU,0x80000061U,0x8000003AU,
4,0x8000000AU,0x80000308U,0x80000061U,0x8000003AU,
3,0x8000000AU,0x80000061U,0x80000027U,
4,0x8000000AU,0x80000308U,0x80000061U,0x80000027U,
4,0x8000000AU,0x80000061U,0x80000027U,0x2060U,
5,0x8000000AU,0x80000308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000000AU,0x80000061U,0x8000002CU,
4,0x8000000AU,0x80000308U,0x80000061U,0x8000002CU,
3,0x8000000AU,0x80000031U,0x8000003AU,
4,0x8000000AU,0x80000308U,0x80000031U,0x8000003AU,
3,0x8000000AU,0x80000031U,0x80000027U,
4,0x8000000AU,0x80000308U,0x80000031U,0x80000027U,
3,0x8000000AU,0x80000031U,0x8000002CU,
4,0x8000000AU,0x80000308U,0x80000031U,0x8000002CU,
4,0x8000000AU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000000AU,0x80000308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000000BU,0x80000001U,
3,0x8000000BU,0x80000308U,0x80000001U,
2,0x8000000BU,0x8000000DU,
3,0x8000000BU,0x80000308U,0x8000000DU,
2,0x8000000BU,0x8000000AU,
3,0x8000000BU,0x80000308U,0x8000000AU,
2,0x8000000BU,0x8000000BU,
3,0x8000000BU,0x80000308U,0x8000000BU,
2,0x8000000BU,0x80003031U,
3,0x8000000BU,0x80000308U,0x80003031U,
2,0x8000000BU,0x80000041U,
3,0x8000000BU,0x80000308U,0x80000041U,
2,0x8000000BU,0x8000003AU,
3,0x8000000BU,0x80000308U,0x8000003AU,
2,0x8000000BU,0x8000002CU,
3,0x8000000BU,0x80000308U,0x8000002CU,
2,0x8000000BU,0x8000002EU,
3,0x8000000BU,0x80000308U,0x8000002EU,
2,0x8000000BU,0x80000030U,
3,0x8000000BU,0x80000308U,0x80000030U,
2,0x8000000BU,0x8000005FU,
3,0x8000000BU,0x80000308U,0x8000005FU,
2,0x8000000BU,0x8001F1E6U,
3,0x8000000BU,0x80000308U,0x8001F1E6U,
2,0x8000000BU,0x800005D0U,
3,0x8000000BU,0x80000308U,0x800005D0U,
2,0x8000000BU,0x80000022U,
3,0x8000000BU,0x80000308U,0x80000022U,
2,0x8000000BU,0x80000027U,
3,0x8000000BU,0x80000308U,0x80000027U,
2,0x8000000BU,0x8000231AU,
3,0x8000000BU,0x80000308U,0x8000231AU,
2,0x8000000BU,0x80000020U,
3,0x8000000BU,0x80000308U,0x80000020U,
2,0x8000000BU,0x800000ADU,
3,0x8000000BU,0x80000308U,0xADU,
2,0x8000000BU,0x80000300U,
3,0x8000000BU,0x80000308U,0x300U,
2,0x8000000BU,0x8000200DU,
3,0x8000000BU,0x80000308U,0x200DU,
3,0x8000000BU,0x80000061U,0x2060U,
4,0x8000000BU,0x80000308U,0x80000061U,0x2060U,
3,0x8000000BU,0x80000061U,0x8000003AU,
4,0x8000000BU,0x80000308U,0x80000061U,0x8000003AU,
3,0x8000000BU,0x80000061U,0x80000027U,
4,0x8000000BU,0x80000308U,0x80000061U,0x80000027U,
4,0x8000000BU,0x80000061U,0x80000027U,0x2060U,
5,0x8000000BU,0x80000308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000000BU,0x80000061U,0x8000002CU,
4,0x8000000BU,0x80000308U,0x80000061U,0x8000002CU,
3,0x8000000BU,0x80000031U,0x8000003AU,
4,0x8000000BU,0x80000308U,0x80000031U,0x8000003AU,
3,0x8000000BU,0x80000031U,0x80000027U,
4,0x8000000BU,0x80000308U,0x80000031U,0x80000027U,
3,0x8000000BU,0x80000031U,0x8000002CU,
4,0x8000000BU,0x80000308U,0x80000031U,0x8000002CU,
4,0x8000000BU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000000BU,0x80000308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80003031U,0x80000001U,
3,0x80003031U,0x308U,0x80000001U,
2,0x80003031U,0x8000000DU,
3,0x80003031U,0x308U,0x8000000DU,
2,0x80003031U,0x8000000AU,
3,0x80003031U,0x308U,0x8000000AU,
2,0x80003031U,0x8000000BU,
3,0x80003031U,0x308U,0x8000000BU,
2,0x80003031U,0x3031U,
3,0x80003031U,0x308U,0x3031U,
2,0x80003031U,0x80000041U,
3,0x80003031U,0x308U,0x80000041U,
2,0x80003031U,0x8000003AU,
3,0x80003031U,0x308U,0x8000003AU,
2,0x80003031U,0x8000002CU,
3,0x80003031U,0x308U,0x8000002CU,
2,0x80003031U,0x8000002EU,
3,0x80003031U,0x308U,0x8000002EU,
2,0x80003031U,0x80000030U,
3,0x80003031U,0x308U,0x80000030U,
2,0x80003031U,0x5FU,
3,0x80003031U,0x308U,0x5FU,
2,0x80003031U,0x8001F1E6U,
3,0x80003031U,0x308U,0x8001F1E6U,
2,0x80003031U,0x800005D0U,
3,0x80003031U,0x308U,0x800005D0U,
2,0x80003031U,0x80000022U,
3,0x80003031U,0x308U,0x80000022U,
2,0x80003031U,0x80000027U,
3,0x80003031U,0x308U,0x80000027U,
2,0x80003031U,0x8000231AU,
3,0x80003031U,0x308U,0x8000231AU,
2,0x80003031U,0x80000020U,
3,0x80003031U,0x308U,0x80000020U,
2,0x80003031U,0xADU,
3,0x80003031U,0x308U,0xADU,
2,0x80003031U,0x300U,
3,0x80003031U,0x308U,0x300U,
2,0x80003031U,0x200DU,
3,0x80003031U,0x308U,0x200DU,
3,0x80003031U,0x80000061U,0x2060U,
4,0x80003031U,0x308U,0x80000061U,0x2060U,
3,0x80003031U,0x80000061U,0x8000003AU,
4,0x80003031U,0x308U,0x80000061U,0x8000003AU,
3,0x80003031U,0x80000061U,0x80000027U,
4,0x80003031U,0x308U,0x80000061U,0x80000027U,
4,0x80003031U,0x80000061U,0x80000027U,0x2060U,
5,0x80003031U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80003031U,0x80000061U,0x8000002CU,
4,0x80003031U,0x308U,0x80000061U,0x8000002CU,
3,0x80003031U,0x80000031U,0x8000003AU,
4,0x80003031U,0x308U,0x80000031U,0x8000003AU,
3,0x80003031U,0x80000031U,0x80000027U,
4,0x80003031U,0x308U,0x80000031U,0x80000027U,
3,0x80003031U,0x80000031U,0x8000002CU,
4,0x80003031U,0x308U,0x80000031U,0x8000002CU,
4,0x80003031U,0x80000031U,0x8000002EU,0x2060U,
5,0x80003031U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80000041U,0x80000001U,
3,0x80000041U,0x308U,0x80000001U,
2,0x80000041U,0x8000000DU,
3,0x80000041U,0x308U,0x8000000DU,
2,0x80000041U,0x8000000AU,
3,0x80000041U,0x308U,0x8000000AU,
2,0x80000041U,0x8000000BU,
3,0x80000041U,0x308U,0x8000000BU,
2,0x80000041U,0x80003031U,
3,0x80000041U,0x308U,0x80003031U,
2,0x80000041U,0x41U,
3,0x80000041U,0x308U,0x41U,
2,0x80000041U,0x8000003AU,
3,0x80000041U,0x308U,0x8000003AU,
2,0x80000041U,0x8000002CU,
3,0x80000041U,0x308U,0x8000002CU,
2,0x80000041U,0x8000002EU,
3,0x80000041U,0x308U,0x8000002EU,
2,0x80000041U,0x30U,
3,0x80000041U,0x308U,0x30U,
2,0x80000041U,0x5FU,
3,0x80000041U,0x308U,0x5FU,
2,0x80000041U,0x8001F1E6U,
3,0x80000041U,0x308U,0x8001F1E6U,
2,0x80000041U,0x5D0U,
3,0x80000041U,0x308U,0x5D0U,
2,0x80000041U,0x80000022U,
3,0x80000041U,0x308U,0x80000022U,
2,0x80000041U,0x80000027U,
3,0x80000041U,0x308U,0x80000027U,
2,0x80000041U,0x8000231AU,
3,0x80000041U,0x308U,0x8000231AU,
2,0x80000041U,0x80000020U,
3,0x80000041U,0x308U,0x80000020U,
2,0x80000041U,0xADU,
3,0x80000041U,0x308U,0xADU,
2,0x80000041U,0x300U,
3,0x80000041U,0x308U,0x300U,
2,0x80000041U,0x200DU,
3,0x80000041U,0x308U,0x200DU,
3,0x80000041U,0x61U,0x2060U,
4,0x80000041U,0x308U,0x61U,0x2060U,
3,0x80000041U,0x61U,0x8000003AU,
4,0x80000041U,0x308U,0x61U,0x8000003AU,
3,0x80000041U,0x61U,0x80000027U,
4,0x80000041U,0x308U,0x61U,0x80000027U,
4,0x80000041U,0x61U,0x80000027U,0x2060U,
5,0x80000041U,0x308U,0x61U,0x80000027U,0x2060U,
3,0x80000041U,0x61U,0x8000002CU,
4,0x80000041U,0x308U,0x61U,0x8000002CU,
3,0x80000041U,0x31U,0x8000003AU,
4,0x80000041U,0x308U,0x31U,0x8000003AU,
3,0x80000041U,0x31U,0x80000027U,
4,0x80000041U,0x308U,0x31U,0x80000027U,
3,0x80000041U,0x31U,0x8000002CU,
4,0x80000041U,0x308U,0x31U,0x8000002CU,
4,0x80000041U,0x31U,0x8000002EU,0x2060U,
5,0x80000041U,0x308U,0x31U,0x8000002EU,0x2060U,
2,0x8000003AU,0x80000001U,
3,0x8000003AU,0x308U,0x80000001U,
2,0x8000003AU,0x8000000DU,
3,0x8000003AU,0x308U,0x8000000DU,
2,0x8000003AU,0x8000000AU,
3,0x8000003AU,0x308U,0x8000000AU,
2,0x8000003AU,0x8000000BU,
3,0x8000003AU,0x308U,0x8000000BU,
2,0x8000003AU,0x80003031U,
3,0x8000003AU,0x308U,0x80003031U,
2,0x8000003AU,0x80000041U,
3,0x8000003AU,0x308U,0x80000041U,
2,0x8000003AU,0x8000003AU,
3,0x8000003AU,0x308U,0x8000003AU,
2,0x8000003AU,0x8000002CU,
3,0x8000003AU,0x308U,0x8000002CU,
2,0x8000003AU,0x8000002EU,
3,0x8000003AU,0x308U,0x8000002EU,
2,0x8000003AU,0x80000030U,
3,0x8000003AU,0x308U,0x80000030U,
2,0x8000003AU,0x8000005FU,
3,0x8000003AU,0x308U,0x8000005FU,
2,0x8000003AU,0x8001F1E6U,
3,0x8000003AU,0x308U,0x8001F1E6U,
2,0x8000003AU,0x800005D0U,
3,0x8000003AU,0x308U,0x800005D0U,
2,0x8000003AU,0x80000022U,
3,0x8000003AU,0x308U,0x80000022U,
2,0x8000003AU,0x80000027U,
3,0x8000003AU,0x308U,0x80000027U,
2,0x8000003AU,0x8000231AU,
3,0x8000003AU,0x308U,0x8000231AU,
2,0x8000003AU,0x80000020U,
3,0x8000003AU,0x308U,0x80000020U,
2,0x8000003AU,0xADU,
3,0x8000003AU,0x308U,0xADU,
2,0x8000003AU,0x300U,
3,0x8000003AU,0x308U,0x300U,
2,0x8000003AU,0x200DU,
3,0x8000003AU,0x308U,0x200DU,
3,0x8000003AU,0x80000061U,0x2060U,
4,0x8000003AU,0x308U,0x80000061U,0x2060U,
3,0x8000003AU,0x80000061U,0x8000003AU,
4,0x8000003AU,0x308U,0x80000061U,0x8000003AU,
3,0x8000003AU,0x80000061U,0x80000027U,
4,0x8000003AU,0x308U,0x80000061U,0x80000027U,
4,0x8000003AU,0x80000061U,0x80000027U,0x2060U,
5,0x8000003AU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000003AU,0x80000061U,0x8000002CU,
4,0x8000003AU,0x308U,0x80000061U,0x8000002CU,
3,0x8000003AU,0x80000031U,0x8000003AU,
4,0x8000003AU,0x308U,0x80000031U,0x8000003AU,
3,0x8000003AU,0x80000031U,0x80000027U,
4,0x8000003AU,0x308U,0x80000031U,0x80000027U,
3,0x8000003AU,0x80000031U,0x8000002CU,
4,0x8000003AU,0x308U,0x80000031U,0x8000002CU,
4,0x8000003AU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000003AU,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000002CU,0x80000001U,
3,0x8000002CU,0x308U,0x80000001U,
2,0x8000002CU,0x8000000DU,
3,0x8000002CU,0x308U,0x8000000DU,
2,0x8000002CU,0x8000000AU,
3,0x8000002CU,0x308U,0x8000000AU,
2,0x8000002CU,0x8000000BU,
3,0x8000002CU,0x308U,0x8000000BU,
2,0x8000002CU,0x80003031U,
3,0x8000002CU,0x308U,0x80003031U,
2,0x8000002CU,0x80000041U,
3,0x8000002CU,0x308U,0x80000041U,
2,0x8000002CU,0x8000003AU,
3,0x8000002CU,0x308U,0x8000003AU,
2,0x8000002CU,0x8000002CU,
3,0x8000002CU,0x308U,0x8000002CU,
2,0x8000002CU,0x8000002EU,
3,0x8000002CU,0x308U,0x8000002EU,
2,0x8000002CU,0x80000030U,
3,0x8000002CU,0x308U,0x80000030U,
2,0x8000002CU,0x8000005FU,
3,0x8000002CU,0x308U,0x8000005FU,
2,0x8000002CU,0x8001F1E6U,
3,0x8000002CU,0x308U,0x8001F1E6U,
2,0x8000002CU,0x800005D0U,
3,0x8000002CU,0x308U,0x800005D0U,
2,0x8000002CU,0x80000022U,
3,0x8000002CU,0x308U,0x80000022U,
2,0x8000002CU,0x80000027U,
3,0x8000002CU,0x308U,0x80000027U,
2,0x8000002CU,0x8000231AU,
3,0x8000002CU,0x308U,0x8000231AU,
2,0x8000002CU,0x80000020U,
3,0x8000002CU,0x308U,0x80000020U,
2,0x8000002CU,0xADU,
3,0x8000002CU,0x308U,0xADU,
2,0x8000002CU,0x300U,
3,0x8000002CU,0x308U,0x300U,
2,0x8000002CU,0x200DU,
3,0x8000002CU,0x308U,0x200DU,
3,0x8000002CU,0x80000061U,0x2060U,
4,0x8000002CU,0x308U,0x80000061U,0x2060U,
3,0x8000002CU,0x80000061U,0x8000003AU,
4,0x8000002CU,0x308U,0x80000061U,0x8000003AU,
3,0x8000002CU,0x80000061U,0x80000027U,
4,0x8000002CU,0x308U,0x80000061U,0x80000027U,
4,0x8000002CU,0x80000061U,0x80000027U,0x2060U,
5,0x8000002CU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000002CU,0x80000061U,0x8000002CU,
4,0x8000002CU,0x308U,0x80000061U,0x8000002CU,
3,0x8000002CU,0x80000031U,0x8000003AU,
4,0x8000002CU,0x308U,0x80000031U,0x8000003AU,
3,0x8000002CU,0x80000031U,0x80000027U,
4,0x8000002CU,0x308U,0x80000031U,0x80000027U,
3,0x8000002CU,0x80000031U,0x8000002CU,
4,0x8000002CU,0x308U,0x80000031U,0x8000002CU,
4,0x8000002CU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000002CU,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000002EU,0x80000001U,
3,0x8000002EU,0x308U,0x80000001U,
2,0x8000002EU,0x8000000DU,
3,0x8000002EU,0x308U,0x8000000DU,
2,0x8000002EU,0x8000000AU,
3,0x8000002EU,0x308U,0x8000000AU,
2,0x8000002EU,0x8000000BU,
3,0x8000002EU,0x308U,0x8000000BU,
2,0x8000002EU,0x80003031U,
3,0x8000002EU,0x308U,0x80003031U,
2,0x8000002EU,0x80000041U,
3,0x8000002EU,0x308U,0x80000041U,
2,0x8000002EU,0x8000003AU,
3,0x8000002EU,0x308U,0x8000003AU,
2,0x8000002EU,0x8000002CU,
3,0x8000002EU,0x308U,0x8000002CU,
2,0x8000002EU,0x8000002EU,
3,0x8000002EU,0x308U,0x8000002EU,
2,0x8000002EU,0x80000030U,
3,0x8000002EU,0x308U,0x80000030U,
2,0x8000002EU,0x8000005FU,
3,0x8000002EU,0x308U,0x8000005FU,
2,0x8000002EU,0x8001F1E6U,
3,0x8000002EU,0x308U,0x8001F1E6U,
2,0x8000002EU,0x800005D0U,
3,0x8000002EU,0x308U,0x800005D0U,
2,0x8000002EU,0x80000022U,
3,0x8000002EU,0x308U,0x80000022U,
2,0x8000002EU,0x80000027U,
3,0x8000002EU,0x308U,0x80000027U,
2,0x8000002EU,0x8000231AU,
3,0x8000002EU,0x308U,0x8000231AU,
2,0x8000002EU,0x80000020U,
3,0x8000002EU,0x308U,0x80000020U,
2,0x8000002EU,0xADU,
3,0x8000002EU,0x308U,0xADU,
2,0x8000002EU,0x300U,
3,0x8000002EU,0x308U,0x300U,
2,0x8000002EU,0x200DU,
3,0x8000002EU,0x308U,0x200DU,
3,0x8000002EU,0x80000061U,0x2060U,
4,0x8000002EU,0x308U,0x80000061U,0x2060U,
3,0x8000002EU,0x80000061U,0x8000003AU,
4,0x8000002EU,0x308U,0x80000061U,0x8000003AU,
3,0x8000002EU,0x80000061U,0x80000027U,
4,0x8000002EU,0x308U,0x80000061U,0x80000027U,
4,0x8000002EU,0x80000061U,0x80000027U,0x2060U,
5,0x8000002EU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000002EU,0x80000061U,0x8000002CU,
4,0x8000002EU,0x308U,0x80000061U,0x8000002CU,
3,0x8000002EU,0x80000031U,0x8000003AU,
4,0x8000002EU,0x308U,0x80000031U,0x8000003AU,
3,0x8000002EU,0x80000031U,0x80000027U,
4,0x8000002EU,0x308U,0x80000031U,0x80000027U,
3,0x8000002EU,0x80000031U,0x8000002CU,
4,0x8000002EU,0x308U,0x80000031U,0x8000002CU,
4,0x8000002EU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000002EU,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80000030U,0x80000001U,
3,0x80000030U,0x308U,0x80000001U,
2,0x80000030U,0x8000000DU,
3,0x80000030U,0x308U,0x8000000DU,
2,0x80000030U,0x8000000AU,
3,0x80000030U,0x308U,0x8000000AU,
2,0x80000030U,0x8000000BU,
3,0x80000030U,0x308U,0x8000000BU,
2,0x80000030U,0x80003031U,
3,0x80000030U,0x308U,0x80003031U,
2,0x80000030U,0x41U,
3,0x80000030U,0x308U,0x41U,
2,0x80000030U,0x8000003AU,
3,0x80000030U,0x308U,0x8000003AU,
2,0x80000030U,0x8000002CU,
3,0x80000030U,0x308U,0x8000002CU,
2,0x80000030U,0x8000002EU,
3,0x80000030U,0x308U,0x8000002EU,
2,0x80000030U,0x30U,
3,0x80000030U,0x308U,0x30U,
2,0x80000030U,0x5FU,
3,0x80000030U,0x308U,0x5FU,
2,0x80000030U,0x8001F1E6U,
3,0x80000030U,0x308U,0x8001F1E6U,
2,0x80000030U,0x5D0U,
3,0x80000030U,0x308U,0x5D0U,
2,0x80000030U,0x80000022U,
3,0x80000030U,0x308U,0x80000022U,
2,0x80000030U,0x80000027U,
3,0x80000030U,0x308U,0x80000027U,
2,0x80000030U,0x8000231AU,
3,0x80000030U,0x308U,0x8000231AU,
2,0x80000030U,0x80000020U,
3,0x80000030U,0x308U,0x80000020U,
2,0x80000030U,0xADU,
3,0x80000030U,0x308U,0xADU,
2,0x80000030U,0x300U,
3,0x80000030U,0x308U,0x300U,
2,0x80000030U,0x200DU,
3,0x80000030U,0x308U,0x200DU,
3,0x80000030U,0x61U,0x2060U,
4,0x80000030U,0x308U,0x61U,0x2060U,
3,0x80000030U,0x61U,0x8000003AU,
4,0x80000030U,0x308U,0x61U,0x8000003AU,
3,0x80000030U,0x61U,0x80000027U,
4,0x80000030U,0x308U,0x61U,0x80000027U,
4,0x80000030U,0x61U,0x80000027U,0x2060U,
5,0x80000030U,0x308U,0x61U,0x80000027U,0x2060U,
3,0x80000030U,0x61U,0x8000002CU,
4,0x80000030U,0x308U,0x61U,0x8000002CU,
3,0x80000030U,0x31U,0x8000003AU,
4,0x80000030U,0x308U,0x31U,0x8000003AU,
3,0x80000030U,0x31U,0x80000027U,
4,0x80000030U,0x308U,0x31U,0x80000027U,
3,0x80000030U,0x31U,0x8000002CU,
4,0x80000030U,0x308U,0x31U,0x8000002CU,
4,0x80000030U,0x31U,0x8000002EU,0x2060U,
5,0x80000030U,0x308U,0x31U,0x8000002EU,0x2060U,
2,0x8000005FU,0x80000001U,
3,0x8000005FU,0x308U,0x80000001U,
2,0x8000005FU,0x8000000DU,
3,0x8000005FU,0x308U,0x8000000DU,
2,0x8000005FU,0x8000000AU,
3,0x8000005FU,0x308U,0x8000000AU,
2,0x8000005FU,0x8000000BU,
3,0x8000005FU,0x308U,0x8000000BU,
2,0x8000005FU,0x3031U,
3,0x8000005FU,0x308U,0x3031U,
2,0x8000005FU,0x41U,
3,0x8000005FU,0x308U,0x41U,
2,0x8000005FU,0x8000003AU,
3,0x8000005FU,0x308U,0x8000003AU,
2,0x8000005FU,0x8000002CU,
3,0x8000005FU,0x308U,0x8000002CU,
2,0x8000005FU,0x8000002EU,
3,0x8000005FU,0x308U,0x8000002EU,
2,0x8000005FU,0x30U,
3,0x8000005FU,0x308U,0x30U,
2,0x8000005FU,0x5FU,
3,0x8000005FU,0x308U,0x5FU,
2,0x8000005FU,0x8001F1E6U,
3,0x8000005FU,0x308U,0x8001F1E6U,
2,0x8000005FU,0x5D0U,
3,0x8000005FU,0x308U,0x5D0U,
2,0x8000005FU,0x80000022U,
3,0x8000005FU,0x308U,0x80000022U,
2,0x8000005FU,0x80000027U,
3,0x8000005FU,0x308U,0x80000027U,
2,0x8000005FU,0x8000231AU,
3,0x8000005FU,0x308U,0x8000231AU,
2,0x8000005FU,0x80000020U,
3,0x8000005FU,0x308U,0x80000020U,
2,0x8000005FU,0xADU,
3,0x8000005FU,0x308U,0xADU,
2,0x8000005FU,0x300U,
3,0x8000005FU,0x308U,0x300U,
2,0x8000005FU,0x200DU,
3,0x8000005FU,0x308U,0x200DU,
3,0x8000005FU,0x61U,0x2060U,
4,0x8000005FU,0x308U,0x61U,0x2060U,
3,0x8000005FU,0x61U,0x8000003AU,
4,0x8000005FU,0x308U,0x61U,0x8000003AU,
3,0x8000005FU,0x61U,0x80000027U,
4,0x8000005FU,0x308U,0x61U,0x80000027U,
4,0x8000005FU,0x61U,0x80000027U,0x2060U,
5,0x8000005FU,0x308U,0x61U,0x80000027U,0x2060U,
3,0x8000005FU,0x61U,0x8000002CU,
4,0x8000005FU,0x308U,0x61U,0x8000002CU,
3,0x8000005FU,0x31U,0x8000003AU,
4,0x8000005FU,0x308U,0x31U,0x8000003AU,
3,0x8000005FU,0x31U,0x80000027U,
4,0x8000005FU,0x308U,0x31U,0x80000027U,
3,0x8000005FU,0x31U,0x8000002CU,
4,0x8000005FU,0x308U,0x31U,0x8000002CU,
4,0x8000005FU,0x31U,0x8000002EU,0x2060U,
5,0x8000005FU,0x308U,0x31U,0x8000002EU,0x2060U,
2,0x8001F1E6U,0x80000001U,
3,0x8001F1E6U,0x308U,0x80000001U,
2,0x8001F1E6U,0x8000000DU,
3,0x8001F1E6U,0x308U,0x8000000DU,
2,0x8001F1E6U,0x8000000AU,
3,0x8001F1E6U,0x308U,0x8000000AU,
2,0x8001F1E6U,0x8000000BU,
3,0x8001F1E6U,0x308U,0x8000000BU,
2,0x8001F1E6U,0x80003031U,
3,0x8001F1E6U,0x308U,0x80003031U,
2,0x8001F1E6U,0x80000041U,
3,0x8001F1E6U,0x308U,0x80000041U,
2,0x8001F1E6U,0x8000003AU,
3,0x8001F1E6U,0x308U,0x8000003AU,
2,0x8001F1E6U,0x8000002CU,
3,0x8001F1E6U,0x308U,0x8000002CU,
2,0x8001F1E6U,0x8000002EU,
3,0x8001F1E6U,0x308U,0x8000002EU,
2,0x8001F1E6U,0x80000030U,
3,0x8001F1E6U,0x308U,0x80000030U,
2,0x8001F1E6U,0x8000005FU,
3,0x8001F1E6U,0x308U,0x8000005FU,
2,0x8001F1E6U,0x1F1E6U,
3,0x8001F1E6U,0x308U,0x1F1E6U,
2,0x8001F1E6U,0x800005D0U,
3,0x8001F1E6U,0x308U,0x800005D0U,
2,0x8001F1E6U,0x80000022U,
3,0x8001F1E6U,0x308U,0x80000022U,
2,0x8001F1E6U,0x80000027U,
3,0x8001F1E6U,0x308U,0x80000027U,
2,0x8001F1E6U,0x8000231AU,
3,0x8001F1E6U,0x308U,0x8000231AU,
2,0x8001F1E6U,0x80000020U,
3,0x8001F1E6U,0x308U,0x80000020U,
2,0x8001F1E6U,0xADU,
3,0x8001F1E6U,0x308U,0xADU,
2,0x8001F1E6U,0x300U,
3,0x8001F1E6U,0x308U,0x300U,
2,0x8001F1E6U,0x200DU,
3,0x8001F1E6U,0x308U,0x200DU,
3,0x8001F1E6U,0x80000061U,0x2060U,
4,0x8001F1E6U,0x308U,0x80000061U,0x2060U,
3,0x8001F1E6U,0x80000061U,0x8000003AU,
4,0x8001F1E6U,0x308U,0x80000061U,0x8000003AU,
3,0x8001F1E6U,0x80000061U,0x80000027U,
4,0x8001F1E6U,0x308U,0x80000061U,0x80000027U,
4,0x8001F1E6U,0x80000061U,0x80000027U,0x2060U,
5,0x8001F1E6U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8001F1E6U,0x80000061U,0x8000002CU,
4,0x8001F1E6U,0x308U,0x80000061U,0x8000002CU,
3,0x8001F1E6U,0x80000031U,0x8000003AU,
4,0x8001F1E6U,0x308U,0x80000031U,0x8000003AU,
3,0x8001F1E6U,0x80000031U,0x80000027U,
4,0x8001F1E6U,0x308U,0x80000031U,0x80000027U,
3,0x8001F1E6U,0x80000031U,0x8000002CU,
4,0x8001F1E6U,0x308U,0x80000031U,0x8000002CU,
4,0x8001F1E6U,0x80000031U,0x8000002EU,0x2060U,
5,0x8001F1E6U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x800005D0U,0x80000001U,
3,0x800005D0U,0x308U,0x80000001U,
2,0x800005D0U,0x8000000DU,
3,0x800005D0U,0x308U,0x8000000DU,
2,0x800005D0U,0x8000000AU,
3,0x800005D0U,0x308U,0x8000000AU,
2,0x800005D0U,0x8000000BU,
3,0x800005D0U,0x308U,0x8000000BU,
2,0x800005D0U,0x80003031U,
3,0x800005D0U,0x308U,0x80003031U,
2,0x800005D0U,0x41U,
3,0x800005D0U,0x308U,0x41U,
2,0x800005D0U,0x8000003AU,
3,0x800005D0U,0x308U,0x8000003AU,
2,0x800005D0U,0x8000002CU,
3,0x800005D0U,0x308U,0x8000002CU,
2,0x800005D0U,0x8000002EU,
3,0x800005D0U,0x308U,0x8000002EU,
2,0x800005D0U,0x30U,
3,0x800005D0U,0x308U,0x30U,
2,0x800005D0U,0x5FU,
3,0x800005D0U,0x308U,0x5FU,
2,0x800005D0U,0x8001F1E6U,
3,0x800005D0U,0x308U,0x8001F1E6U,
2,0x800005D0U,0x5D0U,
3,0x800005D0U,0x308U,0x5D0U,
2,0x800005D0U,0x80000022U,
3,0x800005D0U,0x308U,0x80000022U,
2,0x800005D0U,0x27U,
3,0x800005D0U,0x308U,0x27U,
2,0x800005D0U,0x8000231AU,
3,0x800005D0U,0x308U,0x8000231AU,
2,0x800005D0U,0x80000020U,
3,0x800005D0U,0x308U,0x80000020U,
2,0x800005D0U,0xADU,
3,0x800005D0U,0x308U,0xADU,
2,0x800005D0U,0x300U,
3,0x800005D0U,0x308U,0x300U,
2,0x800005D0U,0x200DU,
3,0x800005D0U,0x308U,0x200DU,
3,0x800005D0U,0x61U,0x2060U,
4,0x800005D0U,0x308U,0x61U,0x2060U,
3,0x800005D0U,0x61U,0x8000003AU,
4,0x800005D0U,0x308U,0x61U,0x8000003AU,
3,0x800005D0U,0x61U,0x80000027U,
4,0x800005D0U,0x308U,0x61U,0x80000027U,
4,0x800005D0U,0x61U,0x80000027U,0x2060U,
5,0x800005D0U,0x308U,0x61U,0x80000027U,0x2060U,
3,0x800005D0U,0x61U,0x8000002CU,
4,0x800005D0U,0x308U,0x61U,0x8000002CU,
3,0x800005D0U,0x31U,0x8000003AU,
4,0x800005D0U,0x308U,0x31U,0x8000003AU,
3,0x800005D0U,0x31U,0x80000027U,
4,0x800005D0U,0x308U,0x31U,0x80000027U,
3,0x800005D0U,0x31U,0x8000002CU,
4,0x800005D0U,0x308U,0x31U,0x8000002CU,
4,0x800005D0U,0x31U,0x8000002EU,0x2060U,
5,0x800005D0U,0x308U,0x31U,0x8000002EU,0x2060U,
2,0x80000022U,0x80000001U,
3,0x80000022U,0x308U,0x80000001U,
2,0x80000022U,0x8000000DU,
3,0x80000022U,0x308U,0x8000000DU,
2,0x80000022U,0x8000000AU,
3,0x80000022U,0x308U,0x8000000AU,
2,0x80000022U,0x8000000BU,
3,0x80000022U,0x308U,0x8000000BU,
2,0x80000022U,0x80003031U,
3,0x80000022U,0x308U,0x80003031U,
2,0x80000022U,0x80000041U,
3,0x80000022U,0x308U,0x80000041U,
2,0x80000022U,0x8000003AU,
3,0x80000022U,0x308U,0x8000003AU,
2,0x80000022U,0x8000002CU,
3,0x80000022U,0x308U,0x8000002CU,
2,0x80000022U,0x8000002EU,
3,0x80000022U,0x308U,0x8000002EU,
2,0x80000022U,0x80000030U,
3,0x80000022U,0x308U,0x80000030U,
2,0x80000022U,0x8000005FU,
3,0x80000022U,0x308U,0x8000005FU,
2,0x80000022U,0x8001F1E6U,
3,0x80000022U,0x308U,0x8001F1E6U,
2,0x80000022U,0x800005D0U,
3,0x80000022U,0x308U,0x800005D0U,
2,0x80000022U,0x80000022U,
3,0x80000022U,0x308U,0x80000022U,
2,0x80000022U,0x80000027U,
3,0x80000022U,0x308U,0x80000027U,
2,0x80000022U,0x8000231AU,
3,0x80000022U,0x308U,0x8000231AU,
2,0x80000022U,0x80000020U,
3,0x80000022U,0x308U,0x80000020U,
2,0x80000022U,0xADU,
3,0x80000022U,0x308U,0xADU,
2,0x80000022U,0x300U,
3,0x80000022U,0x308U,0x300U,
2,0x80000022U,0x200DU,
3,0x80000022U,0x308U,0x200DU,
3,0x80000022U,0x80000061U,0x2060U,
4,0x80000022U,0x308U,0x80000061U,0x2060U,
3,0x80000022U,0x80000061U,0x8000003AU,
4,0x80000022U,0x308U,0x80000061U,0x8000003AU,
3,0x80000022U,0x80000061U,0x80000027U,
4,0x80000022U,0x308U,0x80000061U,0x80000027U,
4,0x80000022U,0x80000061U,0x80000027U,0x2060U,
5,0x80000022U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80000022U,0x80000061U,0x8000002CU,
4,0x80000022U,0x308U,0x80000061U,0x8000002CU,
3,0x80000022U,0x80000031U,0x8000003AU,
4,0x80000022U,0x308U,0x80000031U,0x8000003AU,
3,0x80000022U,0x80000031U,0x80000027U,
4,0x80000022U,0x308U,0x80000031U,0x80000027U,
3,0x80000022U,0x80000031U,0x8000002CU,
4,0x80000022U,0x308U,0x80000031U,0x8000002CU,
4,0x80000022U,0x80000031U,0x8000002EU,0x2060U,
5,0x80000022U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80000027U,0x80000001U,
3,0x80000027U,0x308U,0x80000001U,
2,0x80000027U,0x8000000DU,
3,0x80000027U,0x308U,0x8000000DU,
2,0x80000027U,0x8000000AU,
3,0x80000027U,0x308U,0x8000000AU,
2,0x80000027U,0x8000000BU,
3,0x80000027U,0x308U,0x8000000BU,
2,0x80000027U,0x80003031U,
3,0x80000027U,0x308U,0x80003031U,
2,0x80000027U,0x80000041U,
3,0x80000027U,0x308U,0x80000041U,
2,0x80000027U,0x8000003AU,
3,0x80000027U,0x308U,0x8000003AU,
2,0x80000027U,0x8000002CU,
3,0x80000027U,0x308U,0x8000002CU,
2,0x80000027U,0x8000002EU,
3,0x80000027U,0x308U,0x8000002EU,
2,0x80000027U,0x80000030U,
3,0x80000027U,0x308U,0x80000030U,
2,0x80000027U,0x8000005FU,
3,0x80000027U,0x308U,0x8000005FU,
2,0x80000027U,0x8001F1E6U,
3,0x80000027U,0x308U,0x8001F1E6U,
2,0x80000027U,0x800005D0U,
3,0x80000027U,0x308U,0x800005D0U,
2,0x80000027U,0x80000022U,
3,0x80000027U,0x308U,0x80000022U,
2,0x80000027U,0x80000027U,
3,0x80000027U,0x308U,0x80000027U,
2,0x80000027U,0x8000231AU,
3,0x80000027U,0x308U,0x8000231AU,
2,0x80000027U,0x80000020U,
3,0x80000027U,0x308U,0x80000020U,
2,0x80000027U,0xADU,
3,0x80000027U,0x308U,0xADU,
2,0x80000027U,0x300U,
3,0x80000027U,0x308U,0x300U,
2,0x80000027U,0x200DU,
3,0x80000027U,0x308U,0x200DU,
3,0x80000027U,0x80000061U,0x2060U,
4,0x80000027U,0x308U,0x80000061U,0x2060U,
3,0x80000027U,0x80000061U,0x8000003AU,
4,0x80000027U,0x308U,0x80000061U,0x8000003AU,
3,0x80000027U,0x80000061U,0x80000027U,
4,0x80000027U,0x308U,0x80000061U,0x80000027U,
4,0x80000027U,0x80000061U,0x80000027U,0x2060U,
5,0x80000027U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80000027U,0x80000061U,0x8000002CU,
4,0x80000027U,0x308U,0x80000061U,0x8000002CU,
3,0x80000027U,0x80000031U,0x8000003AU,
4,0x80000027U,0x308U,0x80000031U,0x8000003AU,
3,0x80000027U,0x80000031U,0x80000027U,
4,0x80000027U,0x308U,0x80000031U,0x80000027U,
3,0x80000027U,0x80000031U,0x8000002CU,
4,0x80000027U,0x308U,0x80000031U,0x8000002CU,
4,0x80000027U,0x80000031U,0x8000002EU,0x2060U,
5,0x80000027U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000231AU,0x80000001U,
3,0x8000231AU,0x308U,0x80000001U,
2,0x8000231AU,0x8000000DU,
3,0x8000231AU,0x308U,0x8000000DU,
2,0x8000231AU,0x8000000AU,
3,0x8000231AU,0x308U,0x8000000AU,
2,0x8000231AU,0x8000000BU,
3,0x8000231AU,0x308U,0x8000000BU,
2,0x8000231AU,0x80003031U,
3,0x8000231AU,0x308U,0x80003031U,
2,0x8000231AU,0x80000041U,
3,0x8000231AU,0x308U,0x80000041U,
2,0x8000231AU,0x8000003AU,
3,0x8000231AU,0x308U,0x8000003AU,
2,0x8000231AU,0x8000002CU,
3,0x8000231AU,0x308U,0x8000002CU,
2,0x8000231AU,0x8000002EU,
3,0x8000231AU,0x308U,0x8000002EU,
2,0x8000231AU,0x80000030U,
3,0x8000231AU,0x308U,0x80000030U,
2,0x8000231AU,0x8000005FU,
3,0x8000231AU,0x308U,0x8000005FU,
2,0x8000231AU,0x8001F1E6U,
3,0x8000231AU,0x308U,0x8001F1E6U,
2,0x8000231AU,0x800005D0U,
3,0x8000231AU,0x308U,0x800005D0U,
2,0x8000231AU,0x80000022U,
3,0x8000231AU,0x308U,0x80000022U,
2,0x8000231AU,0x80000027U,
3,0x8000231AU,0x308U,0x80000027U,
2,0x8000231AU,0x8000231AU,
3,0x8000231AU,0x308U,0x8000231AU,
2,0x8000231AU,0x80000020U,
3,0x8000231AU,0x308U,0x80000020U,
2,0x8000231AU,0xADU,
3,0x8000231AU,0x308U,0xADU,
2,0x8000231AU,0x300U,
3,0x8000231AU,0x308U,0x300U,
2,0x8000231AU,0x200DU,
3,0x8000231AU,0x308U,0x200DU,
3,0x8000231AU,0x80000061U,0x2060U,
4,0x8000231AU,0x308U,0x80000061U,0x2060U,
3,0x8000231AU,0x80000061U,0x8000003AU,
4,0x8000231AU,0x308U,0x80000061U,0x8000003AU,
3,0x8000231AU,0x80000061U,0x80000027U,
4,0x8000231AU,0x308U,0x80000061U,0x80000027U,
4,0x8000231AU,0x80000061U,0x80000027U,0x2060U,
5,0x8000231AU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000231AU,0x80000061U,0x8000002CU,
4,0x8000231AU,0x308U,0x80000061U,0x8000002CU,
3,0x8000231AU,0x80000031U,0x8000003AU,
4,0x8000231AU,0x308U,0x80000031U,0x8000003AU,
3,0x8000231AU,0x80000031U,0x80000027U,
4,0x8000231AU,0x308U,0x80000031U,0x80000027U,
3,0x8000231AU,0x80000031U,0x8000002CU,
4,0x8000231AU,0x308U,0x80000031U,0x8000002CU,
4,0x8000231AU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000231AU,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80000020U,0x80000001U,
3,0x80000020U,0x308U,0x80000001U,
2,0x80000020U,0x8000000DU,
3,0x80000020U,0x308U,0x8000000DU,
2,0x80000020U,0x8000000AU,
3,0x80000020U,0x308U,0x8000000AU,
2,0x80000020U,0x8000000BU,
3,0x80000020U,0x308U,0x8000000BU,
2,0x80000020U,0x80003031U,
3,0x80000020U,0x308U,0x80003031U,
2,0x80000020U,0x80000041U,
3,0x80000020U,0x308U,0x80000041U,
2,0x80000020U,0x8000003AU,
3,0x80000020U,0x308U,0x8000003AU,
2,0x80000020U,0x8000002CU,
3,0x80000020U,0x308U,0x8000002CU,
2,0x80000020U,0x8000002EU,
3,0x80000020U,0x308U,0x8000002EU,
2,0x80000020U,0x80000030U,
3,0x80000020U,0x308U,0x80000030U,
2,0x80000020U,0x8000005FU,
3,0x80000020U,0x308U,0x8000005FU,
2,0x80000020U,0x8001F1E6U,
3,0x80000020U,0x308U,0x8001F1E6U,
2,0x80000020U,0x800005D0U,
3,0x80000020U,0x308U,0x800005D0U,
2,0x80000020U,0x80000022U,
3,0x80000020U,0x308U,0x80000022U,
2,0x80000020U,0x80000027U,
3,0x80000020U,0x308U,0x80000027U,
2,0x80000020U,0x8000231AU,
3,0x80000020U,0x308U,0x8000231AU,
2,0x80000020U,0x20U,
3,0x80000020U,0x308U,0x80000020U,
2,0x80000020U,0xADU,
3,0x80000020U,0x308U,0xADU,
2,0x80000020U,0x300U,
3,0x80000020U,0x308U,0x300U,
2,0x80000020U,0x200DU,
3,0x80000020U,0x308U,0x200DU,
3,0x80000020U,0x80000061U,0x2060U,
4,0x80000020U,0x308U,0x80000061U,0x2060U,
3,0x80000020U,0x80000061U,0x8000003AU,
4,0x80000020U,0x308U,0x80000061U,0x8000003AU,
3,0x80000020U,0x80000061U,0x80000027U,
4,0x80000020U,0x308U,0x80000061U,0x80000027U,
4,0x80000020U,0x80000061U,0x80000027U,0x2060U,
5,0x80000020U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80000020U,0x80000061U,0x8000002CU,
4,0x80000020U,0x308U,0x80000061U,0x8000002CU,
3,0x80000020U,0x80000031U,0x8000003AU,
4,0x80000020U,0x308U,0x80000031U,0x8000003AU,
3,0x80000020U,0x80000031U,0x80000027U,
4,0x80000020U,0x308U,0x80000031U,0x80000027U,
3,0x80000020U,0x80000031U,0x8000002CU,
4,0x80000020U,0x308U,0x80000031U,0x8000002CU,
4,0x80000020U,0x80000031U,0x8000002EU,0x2060U,
5,0x80000020U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x800000ADU,0x80000001U,
3,0x800000ADU,0x308U,0x80000001U,
2,0x800000ADU,0x8000000DU,
3,0x800000ADU,0x308U,0x8000000DU,
2,0x800000ADU,0x8000000AU,
3,0x800000ADU,0x308U,0x8000000AU,
2,0x800000ADU,0x8000000BU,
3,0x800000ADU,0x308U,0x8000000BU,
2,0x800000ADU,0x80003031U,
3,0x800000ADU,0x308U,0x80003031U,
2,0x800000ADU,0x80000041U,
3,0x800000ADU,0x308U,0x80000041U,
2,0x800000ADU,0x8000003AU,
3,0x800000ADU,0x308U,0x8000003AU,
2,0x800000ADU,0x8000002CU,
3,0x800000ADU,0x308U,0x8000002CU,
2,0x800000ADU,0x8000002EU,
3,0x800000ADU,0x308U,0x8000002EU,
2,0x800000ADU,0x80000030U,
3,0x800000ADU,0x308U,0x80000030U,
2,0x800000ADU,0x8000005FU,
3,0x800000ADU,0x308U,0x8000005FU,
2,0x800000ADU,0x8001F1E6U,
3,0x800000ADU,0x308U,0x8001F1E6U,
2,0x800000ADU,0x800005D0U,
3,0x800000ADU,0x308U,0x800005D0U,
2,0x800000ADU,0x80000022U,
3,0x800000ADU,0x308U,0x80000022U,
2,0x800000ADU,0x80000027U,
3,0x800000ADU,0x308U,0x80000027U,
2,0x800000ADU,0x8000231AU,
3,0x800000ADU,0x308U,0x8000231AU,
2,0x800000ADU,0x80000020U,
3,0x800000ADU,0x308U,0x80000020U,
2,0x800000ADU,0xADU,
3,0x800000ADU,0x308U,0xADU,
2,0x800000ADU,0x300U,
3,0x800000ADU,0x308U,0x300U,
2,0x800000ADU,0x200DU,
3,0x800000ADU,0x308U,0x200DU,
3,0x800000ADU,0x80000061U,0x2060U,
4,0x800000ADU,0x308U,0x80000061U,0x2060U,
3,0x800000ADU,0x80000061U,0x8000003AU,
4,0x800000ADU,0x308U,0x80000061U,0x8000003AU,
3,0x800000ADU,0x80000061U,0x80000027U,
4,0x800000ADU,0x308U,0x80000061U,0x80000027U,
4,0x800000ADU,0x80000061U,0x80000027U,0x2060U,
5,0x800000ADU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x800000ADU,0x80000061U,0x8000002CU,
4,0x800000ADU,0x308U,0x80000061U,0x8000002CU,
3,0x800000ADU,0x80000031U,0x8000003AU,
4,0x800000ADU,0x308U,0x80000031U,0x8000003AU,
3,0x800000ADU,0x80000031U,0x80000027U,
4,0x800000ADU,0x308U,0x80000031U,0x80000027U,
3,0x800000ADU,0x80000031U,0x8000002CU,
4,0x800000ADU,0x308U,0x80000031U,0x8000002CU,
4,0x800000ADU,0x80000031U,0x8000002EU,0x2060U,
5,0x800000ADU,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x80000300U,0x80000001U,
3,0x80000300U,0x308U,0x80000001U,
2,0x80000300U,0x8000000DU,
3,0x80000300U,0x308U,0x8000000DU,
2,0x80000300U,0x8000000AU,
3,0x80000300U,0x308U,0x8000000AU,
2,0x80000300U,0x8000000BU,
3,0x80000300U,0x308U,0x8000000BU,
2,0x80000300U,0x80003031U,
3,0x80000300U,0x308U,0x80003031U,
2,0x80000300U,0x80000041U,
3,0x80000300U,0x308U,0x80000041U,
2,0x80000300U,0x8000003AU,
3,0x80000300U,0x308U,0x8000003AU,
2,0x80000300U,0x8000002CU,
3,0x80000300U,0x308U,0x8000002CU,
2,0x80000300U,0x8000002EU,
3,0x80000300U,0x308U,0x8000002EU,
2,0x80000300U,0x80000030U,
3,0x80000300U,0x308U,0x80000030U,
2,0x80000300U,0x8000005FU,
3,0x80000300U,0x308U,0x8000005FU,
2,0x80000300U,0x8001F1E6U,
3,0x80000300U,0x308U,0x8001F1E6U,
2,0x80000300U,0x800005D0U,
3,0x80000300U,0x308U,0x800005D0U,
2,0x80000300U,0x80000022U,
3,0x80000300U,0x308U,0x80000022U,
2,0x80000300U,0x80000027U,
3,0x80000300U,0x308U,0x80000027U,
2,0x80000300U,0x8000231AU,
3,0x80000300U,0x308U,0x8000231AU,
2,0x80000300U,0x80000020U,
3,0x80000300U,0x308U,0x80000020U,
2,0x80000300U,0xADU,
3,0x80000300U,0x308U,0xADU,
2,0x80000300U,0x300U,
3,0x80000300U,0x308U,0x300U,
2,0x80000300U,0x200DU,
3,0x80000300U,0x308U,0x200DU,
3,0x80000300U,0x80000061U,0x2060U,
4,0x80000300U,0x308U,0x80000061U,0x2060U,
3,0x80000300U,0x80000061U,0x8000003AU,
4,0x80000300U,0x308U,0x80000061U,0x8000003AU,
3,0x80000300U,0x80000061U,0x80000027U,
4,0x80000300U,0x308U,0x80000061U,0x80000027U,
4,0x80000300U,0x80000061U,0x80000027U,0x2060U,
5,0x80000300U,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x80000300U,0x80000061U,0x8000002CU,
4,0x80000300U,0x308U,0x80000061U,0x8000002CU,
3,0x80000300U,0x80000031U,0x8000003AU,
4,0x80000300U,0x308U,0x80000031U,0x8000003AU,
3,0x80000300U,0x80000031U,0x80000027U,
4,0x80000300U,0x308U,0x80000031U,0x80000027U,
3,0x80000300U,0x80000031U,0x8000002CU,
4,0x80000300U,0x308U,0x80000031U,0x8000002CU,
4,0x80000300U,0x80000031U,0x8000002EU,0x2060U,
5,0x80000300U,0x308U,0x80000031U,0x8000002EU,0x2060U,
2,0x8000200DU,0x80000001U,
3,0x8000200DU,0x308U,0x80000001U,
2,0x8000200DU,0x8000000DU,
3,0x8000200DU,0x308U,0x8000000DU,
2,0x8000200DU,0x8000000AU,
3,0x8000200DU,0x308U,0x8000000AU,
2,0x8000200DU,0x8000000BU,
3,0x8000200DU,0x308U,0x8000000BU,
2,0x8000200DU,0x80003031U,
3,0x8000200DU,0x308U,0x80003031U,
2,0x8000200DU,0x80000041U,
3,0x8000200DU,0x308U,0x80000041U,
2,0x8000200DU,0x8000003AU,
3,0x8000200DU,0x308U,0x8000003AU,
2,0x8000200DU,0x8000002CU,
3,0x8000200DU,0x308U,0x8000002CU,
2,0x8000200DU,0x8000002EU,
3,0x8000200DU,0x308U,0x8000002EU,
2,0x8000200DU,0x80000030U,
3,0x8000200DU,0x308U,0x80000030U,
2,0x8000200DU,0x8000005FU,
3,0x8000200DU,0x308U,0x8000005FU,
2,0x8000200DU,0x8001F1E6U,
3,0x8000200DU,0x308U,0x8001F1E6U,
2,0x8000200DU,0x800005D0U,
3,0x8000200DU,0x308U,0x800005D0U,
2,0x8000200DU,0x80000022U,
3,0x8000200DU,0x308U,0x80000022U,
2,0x8000200DU,0x80000027U,
3,0x8000200DU,0x308U,0x80000027U,
2,0x8000200DU,0x231AU,
3,0x8000200DU,0x308U,0x8000231AU,
2,0x8000200DU,0x80000020U,
3,0x8000200DU,0x308U,0x80000020U,
2,0x8000200DU,0xADU,
3,0x8000200DU,0x308U,0xADU,
2,0x8000200DU,0x300U,
3,0x8000200DU,0x308U,0x300U,
2,0x8000200DU,0x200DU,
3,0x8000200DU,0x308U,0x200DU,
3,0x8000200DU,0x80000061U,0x2060U,
4,0x8000200DU,0x308U,0x80000061U,0x2060U,
3,0x8000200DU,0x80000061U,0x8000003AU,
4,0x8000200DU,0x308U,0x80000061U,0x8000003AU,
3,0x8000200DU,0x80000061U,0x80000027U,
4,0x8000200DU,0x308U,0x80000061U,0x80000027U,
4,0x8000200DU,0x80000061U,0x80000027U,0x2060U,
5,0x8000200DU,0x308U,0x80000061U,0x80000027U,0x2060U,
3,0x8000200DU,0x80000061U,0x8000002CU,
4,0x8000200DU,0x308U,0x80000061U,0x8000002CU,
3,0x8000200DU,0x80000031U,0x8000003AU,
4,0x8000200DU,0x308U,0x80000031U,0x8000003AU,
3,0x8000200DU,0x80000031U,0x80000027U,
4,0x8000200DU,0x308U,0x80000031U,0x80000027U,
3,0x8000200DU,0x80000031U,0x8000002CU,
4,0x8000200DU,0x308U,0x80000031U,0x8000002CU,
4,0x8000200DU,0x80000031U,0x8000002EU,0x2060U,
5,0x8000200DU,0x308U,0x80000031U,0x8000002EU,0x2060U,
3,0x80000061U,0x2060U,0x80000001U,
4,0x80000061U,0x2060U,0x308U,0x80000001U,
3,0x80000061U,0x2060U,0x8000000DU,
4,0x80000061U,0x2060U,0x308U,0x8000000DU,
3,0x80000061U,0x2060U,0x8000000AU,
4,0x80000061U,0x2060U,0x308U,0x8000000AU,
3,0x80000061U,0x2060U,0x8000000BU,
4,0x80000061U,0x2060U,0x308U,0x8000000BU,
3,0x80000061U,0x2060U,0x80003031U,
4,0x80000061U,0x2060U,0x308U,0x80003031U,
3,0x80000061U,0x2060U,0x41U,
4,0x80000061U,0x2060U,0x308U,0x41U,
3,0x80000061U,0x2060U,0x8000003AU,
4,0x80000061U,0x2060U,0x308U,0x8000003AU,
3,0x80000061U,0x2060U,0x8000002CU,
4,0x80000061U,0x2060U,0x308U,0x8000002CU,
3,0x80000061U,0x2060U,0x8000002EU,
4,0x80000061U,0x2060U,0x308U,0x8000002EU,
3,0x80000061U,0x2060U,0x30U,
4,0x80000061U,0x2060U,0x308U,0x30U,
3,0x80000061U,0x2060U,0x5FU,
4,0x80000061U,0x2060U,0x308U,0x5FU,
3,0x80000061U,0x2060U,0x8001F1E6U,
4,0x80000061U,0x2060U,0x308U,0x8001F1E6U,
3,0x80000061U,0x2060U,0x5D0U,
4,0x80000061U,0x2060U,0x308U,0x5D0U,
3,0x80000061U,0x2060U,0x80000022U,
4,0x80000061U,0x2060U,0x308U,0x80000022U,
3,0x80000061U,0x2060U,0x80000027U,
4,0x80000061U,0x2060U,0x308U,0x80000027U,
3,0x80000061U,0x2060U,0x8000231AU,
4,0x80000061U,0x2060U,0x308U,0x8000231AU,
3,0x80000061U,0x2060U,0x80000020U,
4,0x80000061U,0x2060U,0x308U,0x80000020U,
3,0x80000061U,0x2060U,0xADU,
4,0x80000061U,0x2060U,0x308U,0xADU,
3,0x80000061U,0x2060U,0x300U,
4,0x80000061U,0x2060U,0x308U,0x300U,
3,0x80000061U,0x2060U,0x200DU,
4,0x80000061U,0x2060U,0x308U,0x200DU,
4,0x80000061U,0x2060U,0x61U,0x2060U,
5,0x80000061U,0x2060U,0x308U,0x61U,0x2060U,
4,0x80000061U,0x2060U,0x61U,0x8000003AU,
5,0x80000061U,0x2060U,0x308U,0x61U,0x8000003AU,
4,0x80000061U,0x2060U,0x61U,0x80000027U,
5,0x80000061U,0x2060U,0x308U,0x61U,0x80000027U,
5,0x80000061U,0x2060U,0x61U,0x80000027U,0x2060U,
6,0x80000061U,0x2060U,0x308U,0x61U,0x80000027U,0x2060U,
4,0x80000061U,0x2060U,0x61U,0x8000002CU,
5,0x80000061U,0x2060U,0x308U,0x61U,0x8000002CU,
4,0x80000061U,0x2060U,0x31U,0x8000003AU,
5,0x80000061U,0x2060U,0x308U,0x31U,0x8000003AU,
4,0x80000061U,0x2060U,0x31U,0x80000027U,
5,0x80000061U,0x2060U,0x308U,0x31U,0x80000027U,
4,0x80000061U,0x2060U,0x31U,0x8000002CU,
5,0x80000061U,0x2060U,0x308U,0x31U,0x8000002CU,
5,0x80000061U,0x2060U,0x31U,0x8000002EU,0x2060U,
6,0x80000061U,0x2060U,0x308U,0x31U,0x8000002EU,0x2060U,
3,0x80000061U,0x8000003AU,0x80000001U,
4,0x80000061U,0x8000003AU,0x308U,0x80000001U,
3,0x80000061U,0x8000003AU,0x8000000DU,
4,0x80000061U,0x8000003AU,0x308U,0x8000000DU,
3,0x80000061U,0x8000003AU,0x8000000AU,
4,0x80000061U,0x8000003AU,0x308U,0x8000000AU,
3,0x80000061U,0x8000003AU,0x8000000BU,
4,0x80000061U,0x8000003AU,0x308U,0x8000000BU,
3,0x80000061U,0x8000003AU,0x80003031U,
4,0x80000061U,0x8000003AU,0x308U,0x80003031U,
3,0x80000061U,0x3AU,0x41U,
4,0x80000061U,0x3AU,0x308U,0x41U,
3,0x80000061U,0x8000003AU,0x8000003AU,
4,0x80000061U,0x8000003AU,0x308U,0x8000003AU,
3,0x80000061U,0x8000003AU,0x8000002CU,
4,0x80000061U,0x8000003AU,0x308U,0x8000002CU,
3,0x80000061U,0x8000003AU,0x8000002EU,
4,0x80000061U,0x8000003AU,0x308U,0x8000002EU,
3,0x80000061U,0x8000003AU,0x80000030U,
4,0x80000061U,0x8000003AU,0x308U,0x80000030U,
3,0x80000061U,0x8000003AU,0x8000005FU,
4,0x80000061U,0x8000003AU,0x308U,0x8000005FU,
3,0x80000061U,0x8000003AU,0x8001F1E6U,
4,0x80000061U,0x8000003AU,0x308U,0x8001F1E6U,
3,0x80000061U,0x3AU,0x5D0U,
4,0x80000061U,0x3AU,0x308U,0x5D0U,
3,0x80000061U,0x8000003AU,0x80000022U,
4,0x80000061U,0x8000003AU,0x308U,0x80000022U,
3,0x80000061U,0x8000003AU,0x80000027U,
4,0x80000061U,0x8000003AU,0x308U,0x80000027U,
3,0x80000061U,0x8000003AU,0x8000231AU,
4,0x80000061U,0x8000003AU,0x308U,0x8000231AU,
3,0x80000061U,0x8000003AU,0x80000020U,
4,0x80000061U,0x8000003AU,0x308U,0x80000020U,
3,0x80000061U,0x8000003AU,0xADU,
4,0x80000061U,0x8000003AU,0x308U,0xADU,
3,0x80000061U,0x8000003AU,0x300U,
4,0x80000061U,0x8000003AU,0x308U,0x300U,
3,0x80000061U,0x8000003AU,0x200DU,
4,0x80000061U,0x8000003AU,0x308U,0x200DU,
4,0x80000061U,0x3AU,0x61U,0x2060U,
5,0x80000061U,0x3AU,0x308U,0x61U,0x2060U,
4,0x80000061U,0x3AU,0x61U,0x8000003AU,
5,0x80000061U,0x3AU,0x308U,0x61U,0x8000003AU,
4,0x80000061U,0x3AU,0x61U,0x80000027U,
5,0x80000061U,0x3AU,0x308U,0x61U,0x80000027U,
5,0x80000061U,0x3AU,0x61U,0x80000027U,0x2060U,
6,0x80000061U,0x3AU,0x308U,0x61U,0x80000027U,0x2060U,
4,0x80000061U,0x3AU,0x61U,0x8000002CU,
5,0x80000061U,0x3AU,0x308U,0x61U,0x8000002CU,
4,0x80000061U,0x8000003AU,0x80000031U,0x8000003AU,
5,0x80000061U,0x8000003AU,0x308U,0x80000031U,0x8000003AU,
4,0x80000061U,0x8000003AU,0x80000031U,0x80000027U,
5,0x80000061U,0x8000003AU,0x308U,0x80000031U,0x80000027U,
4,0x80000061U,0x8000003AU,0x80000031U,0x8000002CU,
5,0x80000061U,0x8000003AU,0x308U,0x80000031U,0x8000002CU,
5,0x80000061U,0x8000003AU,0x80000031U,0x8000002EU,0x2060U,
6,0x80000061U,0x8000003AU,0x308U,0x80000031U,0x8000002EU,0x2060U,
3,0x80000061U,0x80000027U,0x80000001U,
4,0x80000061U,0x80000027U,0x308U,0x80000001U,
3,0x80000061U,0x80000027U,0x8000000DU,
4,0x80000061U,0x80000027U,0x308U,0x8000000DU,
3,0x80000061U,0x80000027U,0x8000000AU,
4,0x80000061U,0x80000027U,0x308U,0x8000000AU,
3,0x80000061U,0x80000027U,0x8000000BU,
4,0x80000061U,0x80000027U,0x308U,0x8000000BU,
3,0x80000061U,0x80000027U,0x80003031U,
4,0x80000061U,0x80000027U,0x308U,0x80003031U,
3,0x80000061U,0x27U,0x41U,
4,0x80000061U,0x27U,0x308U,0x41U,
3,0x80000061U,0x80000027U,0x8000003AU,
4,0x80000061U,0x80000027U,0x308U,0x8000003AU,
3,0x80000061U,0x80000027U,0x8000002CU,
4,0x80000061U,0x80000027U,0x308U,0x8000002CU,
3,0x80000061U,0x80000027U,0x8000002EU,
4,0x80000061U,0x80000027U,0x308U,0x8000002EU,
3,0x80000061U,0x80000027U,0x80000030U,
4,0x80000061U,0x80000027U,0x308U,0x80000030U,
3,0x80000061U,0x80000027U,0x8000005FU,
4,0x80000061U,0x80000027U,0x308U,0x8000005FU,
3,0x80000061U,0x80000027U,0x8001F1E6U,
4,0x80000061U,0x80000027U,0x308U,0x8001F1E6U,
3,0x80000061U,0x27U,0x5D0U,
4,0x80000061U,0x27U,0x308U,0x5D0U,
3,0x80000061U,0x80000027U,0x80000022U,
4,0x80000061U,0x80000027U,0x308U,0x80000022U,
3,0x80000061U,0x80000027U,0x80000027U,
4,0x80000061U,0x80000027U,0x308U,0x80000027U,
3,0x80000061U,0x80000027U,0x8000231AU,
4,0x80000061U,0x80000027U,0x308U,0x8000231AU,
3,0x80000061U,0x80000027U,0x80000020U,
4,0x80000061U,0x80000027U,0x308U,0x80000020U,
3,0x80000061U,0x80000027U,0xADU,
4,0x80000061U,0x80000027U,0x308U,0xADU,
3,0x80000061U,0x80000027U,0x300U,
4,0x80000061U,0x80000027U,0x308U,0x300U,
3,0x80000061U,0x80000027U,0x200DU,
4,0x80000061U,0x80000027U,0x308U,0x200DU,
4,0x80000061U,0x27U,0x61U,0x2060U,
5,0x80000061U,0x27U,0x308U,0x61U,0x2060U,
4,0x80000061U,0x27U,0x61U,0x8000003AU,
5,0x80000061U,0x27U,0x308U,0x61U,0x8000003AU,
4,0x80000061U,0x27U,0x61U,0x80000027U,
5,0x80000061U,0x27U,0x308U,0x61U,0x80000027U,
5,0x80000061U,0x27U,0x61U,0x80000027U,0x2060U,
6,0x80000061U,0x27U,0x308U,0x61U,0x80000027U,0x2060U,
4,0x80000061U,0x27U,0x61U,0x8000002CU,
5,0x80000061U,0x27U,0x308U,0x61U,0x8000002CU,
4,0x80000061U,0x80000027U,0x80000031U,0x8000003AU,
5,0x80000061U,0x80000027U,0x308U,0x80000031U,0x8000003AU,
4,0x80000061U,0x80000027U,0x80000031U,0x80000027U,
5,0x80000061U,0x80000027U,0x308U,0x80000031U,0x80000027U,
4,0x80000061U,0x80000027U,0x80000031U,0x8000002CU,
5,0x80000061U,0x80000027U,0x308U,0x80000031U,0x8000002CU,
5,0x80000061U,0x80000027U,0x80000031U,0x8000002EU,0x2060U,
6,0x80000061U,0x80000027U,0x308U,0x80000031U,0x8000002EU,0x2060U,
4,0x80000061U,0x80000027U,0x2060U,0x80000001U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000001U,
4,0x80000061U,0x80000027U,0x2060U,0x8000000DU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000000DU,
4,0x80000061U,0x80000027U,0x2060U,0x8000000AU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000000AU,
4,0x80000061U,0x80000027U,0x2060U,0x8000000BU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000000BU,
4,0x80000061U,0x80000027U,0x2060U,0x80003031U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80003031U,
4,0x80000061U,0x27U,0x2060U,0x41U,
5,0x80000061U,0x27U,0x2060U,0x308U,0x41U,
4,0x80000061U,0x80000027U,0x2060U,0x8000003AU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000003AU,
4,0x80000061U,0x80000027U,0x2060U,0x8000002CU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000002CU,
4,0x80000061U,0x80000027U,0x2060U,0x8000002EU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000002EU,
4,0x80000061U,0x80000027U,0x2060U,0x80000030U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000030U,
4,0x80000061U,0x80000027U,0x2060U,0x8000005FU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000005FU,
4,0x80000061U,0x80000027U,0x2060U,0x8001F1E6U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8001F1E6U,
4,0x80000061U,0x27U,0x2060U,0x5D0U,
5,0x80000061U,0x27U,0x2060U,0x308U,0x5D0U,
4,0x80000061U,0x80000027U,0x2060U,0x80000022U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000022U,
4,0x80000061U,0x80000027U,0x2060U,0x80000027U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000027U,
4,0x80000061U,0x80000027U,0x2060U,0x8000231AU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x8000231AU,
4,0x80000061U,0x80000027U,0x2060U,0x80000020U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000020U,
4,0x80000061U,0x80000027U,0x2060U,0xADU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0xADU,
4,0x80000061U,0x80000027U,0x2060U,0x300U,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x300U,
4,0x80000061U,0x80000027U,0x2060U,0x200DU,
5,0x80000061U,0x80000027U,0x2060U,0x308U,0x200DU,
5,0x80000061U,0x27U,0x2060U,0x61U,0x2060U,
6,0x80000061U,0x27U,0x2060U,0x308U,0x61U,0x2060U,
5,0x80000061U,0x27U,0x2060U,0x61U,0x8000003AU,
6,0x80000061U,0x27U,0x2060U,0x308U,0x61U,0x8000003AU,
5,0x80000061U,0x27U,0x2060U,0x61U,0x80000027U,
6,0x80000061U,0x27U,0x2060U,0x308U,0x61U,0x80000027U,
6,0x80000061U,0x27U,0x2060U,0x61U,0x80000027U,0x2060U,
7,0x80000061U,0x27U,0x2060U,0x308U,0x61U,0x80000027U,0x2060U,
5,0x80000061U,0x27U,0x2060U,0x61U,0x8000002CU,
6,0x80000061U,0x27U,0x2060U,0x308U,0x61U,0x8000002CU,
5,0x80000061U,0x80000027U,0x2060U,0x80000031U,0x8000003AU,
6,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000031U,0x8000003AU,
5,0x80000061U,0x80000027U,0x2060U,0x80000031U,0x80000027U,
6,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000031U,0x80000027U,
5,0x80000061U,0x80000027U,0x2060U,0x80000031U,0x8000002CU,
6,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000031U,0x8000002CU,
6,0x80000061U,0x80000027U,0x2060U,0x80000031U,0x8000002EU,0x2060U,
7,0x80000061U,0x80000027U,0x2060U,0x308U,0x80000031U,0x8000002EU,0x2060U,
3,0x80000061U,0x8000002CU,0x80000001U,
4,0x80000061U,0x8000002CU,0x308U,0x80000001U,
3,0x80000061U,0x8000002CU,0x8000000DU,
4,0x80000061U,0x8000002CU,0x308U,0x8000000DU,
3,0x80000061U,0x8000002CU,0x8000000AU,
4,0x80000061U,0x8000002CU,0x308U,0x8000000AU,
3,0x80000061U,0x8000002CU,0x8000000BU,
4,0x80000061U,0x8000002CU,0x308U,0x8000000BU,
3,0x80000061U,0x8000002CU,0x80003031U,
4,0x80000061U,0x8000002CU,0x308U,0x80003031U,
3,0x80000061U,0x8000002CU,0x80000041U,
4,0x80000061U,0x8000002CU,0x308U,0x80000041U,
3,0x80000061U,0x8000002CU,0x8000003AU,
4,0x80000061U,0x8000002CU,0x308U,0x8000003AU,
3,0x80000061U,0x8000002CU,0x8000002CU,
4,0x80000061U,0x8000002CU,0x308U,0x8000002CU,
3,0x80000061U,0x8000002CU,0x8000002EU,
4,0x80000061U,0x8000002CU,0x308U,0x8000002EU,
3,0x80000061U,0x8000002CU,0x80000030U,
4,0x80000061U,0x8000002CU,0x308U,0x80000030U,
3,0x80000061U,0x8000002CU,0x8000005FU,
4,0x80000061U,0x8000002CU,0x308U,0x8000005FU,
3,0x80000061U,0x8000002CU,0x8001F1E6U,
4,0x80000061U,0x8000002CU,0x308U,0x8001F1E6U,
3,0x80000061U,0x8000002CU,0x800005D0U,
4,0x80000061U,0x8000002CU,0x308U,0x800005D0U,
3,0x80000061U,0x8000002CU,0x80000022U,
4,0x80000061U,0x8000002CU,0x308U,0x80000022U,
3,0x80000061U,0x8000002CU,0x80000027U,
4,0x80000061U,0x8000002CU,0x308U,0x80000027U,
3,0x80000061U,0x8000002CU,0x8000231AU,
4,0x80000061U,0x8000002CU,0x308U,0x8000231AU,
3,0x80000061U,0x8000002CU,0x80000020U,
4,0x80000061U,0x8000002CU,0x308U,0x80000020U,
3,0x80000061U,0x8000002CU,0xADU,
4,0x80000061U,0x8000002CU,0x308U,0xADU,
3,0x80000061U,0x8000002CU,0x300U,
4,0x80000061U,0x8000002CU,0x308U,0x300U,
3,0x80000061U,0x8000002CU,0x200DU,
4,0x80000061U,0x8000002CU,0x308U,0x200DU,
4,0x80000061U,0x8000002CU,0x80000061U,0x2060U,
5,0x80000061U,0x8000002CU,0x308U,0x80000061U,0x2060U,
4,0x80000061U,0x8000002CU,0x80000061U,0x8000003AU,
5,0x80000061U,0x8000002CU,0x308U,0x80000061U,0x8000003AU,
4,0x80000061U,0x8000002CU,0x80000061U,0x80000027U,
5,0x80000061U,0x8000002CU,0x308U,0x80000061U,0x80000027U,
5,0x80000061U,0x8000002CU,0x80000061U,0x80000027U,0x2060U,
6,0x80000061U,0x8000002CU,0x308U,0x80000061U,0x80000027U,0x2060U,
4,0x80000061U,0x8000002CU,0x80000061U,0x8000002CU,
5,0x80000061U,0x8000002CU,0x308U,0x80000061U,0x8000002CU,
4,0x80000061U,0x8000002CU,0x80000031U,0x8000003AU,
5,0x80000061U,0x8000002CU,0x308U,0x80000031U,0x8000003AU,
4,0x80000061U,0x8000002CU,0x80000031U,0x80000027U,
5,0x80000061U,0x8000002CU,0x308U,0x80000031U,0x80000027U,
4,0x80000061U,0x8000002CU,0x80000031U,0x8000002CU,
5,0x80000061U,0x8000002CU,0x308U,0x80000031U,0x8000002CU,
5,0x80000061U,0x8000002CU,0x80000031U,0x8000002EU,0x2060U,
6,0x80000061U,0x8000002CU,0x308U,0x80000031U,0x8000002EU,0x2060U,
3,0x80000031U,0x8000003AU,0x80000001U,
4,0x80000031U,0x8000003AU,0x308U,0x80000001U,
3,0x80000031U,0x8000003AU,0x8000000DU,
4,0x80000031U,0x8000003AU,0x308U,0x8000000DU,
3,0x80000031U,0x8000003AU,0x8000000AU,
4,0x80000031U,0x8000003AU,0x308U,0x8000000AU,
3,0x80000031U,0x8000003AU,0x8000000BU,
4,0x80000031U,0x8000003AU,0x308U,0x8000000BU,
3,0x80000031U,0x8000003AU,0x80003031U,
4,0x80000031U,0x8000003AU,0x308U,0x80003031U,
3,0x80000031U,0x8000003AU,0x80000041U,
4,0x80000031U,0x8000003AU,0x308U,0x80000041U,
3,0x80000031U,0x8000003AU,0x8000003AU,
4,0x80000031U,0x8000003AU,0x308U,0x8000003AU,
3,0x80000031U,0x8000003AU,0x8000002CU,
4,0x80000031U,0x8000003AU,0x308U,0x8000002CU,
3,0x80000031U,0x8000003AU,0x8000002EU,
4,0x80000031U,0x8000003AU,0x308U,0x8000002EU,
3,0x80000031U,0x8000003AU,0x80000030U,
4,0x80000031U,0x8000003AU,0x308U,0x80000030U,
3,0x80000031U,0x8000003AU,0x8000005FU,
4,0x80000031U,0x8000003AU,0x308U,0x8000005FU,
3,0x80000031U,0x8000003AU,0x8001F1E6U,
4,0x80000031U,0x8000003AU,0x308U,0x8001F1E6U,
3,0x80000031U,0x8000003AU,0x800005D0U,
4,0x80000031U,0x8000003AU,0x308U,0x800005D0U,
3,0x80000031U,0x8000003AU,0x80000022U,
4,0x80000031U,0x8000003AU,0x308U,0x80000022U,
3,0x80000031U,0x8000003AU,0x80000027U,
4,0x80000031U,0x8000003AU,0x308U,0x80000027U,
3,0x80000031U,0x8000003AU,0x8000231AU,
4,0x80000031U,0x8000003AU,0x308U,0x8000231AU,
3,0x80000031U,0x8000003AU,0x80000020U,
4,0x80000031U,0x8000003AU,0x308U,0x80000020U,
3,0x80000031U,0x8000003AU,0xADU,
4,0x80000031U,0x8000003AU,0x308U,0xADU,
3,0x80000031U,0x8000003AU,0x300U,
4,0x80000031U,0x8000003AU,0x308U,0x300U,
3,0x80000031U,0x8000003AU,0x200DU,
4,0x80000031U,0x8000003AU,0x308U,0x200DU,
4,0x80000031U,0x8000003AU,0x80000061U,0x2060U,
5,0x80000031U,0x8000003AU,0x308U,0x80000061U,0x2060U,
4,0x80000031U,0x8000003AU,0x80000061U,0x8000003AU,
5,0x80000031U,0x8000003AU,0x308U,0x80000061U,0x8000003AU,
4,0x80000031U,0x8000003AU,0x80000061U,0x80000027U,
5,0x80000031U,0x8000003AU,0x308U,0x80000061U,0x80000027U,
5,0x80000031U,0x8000003AU,0x80000061U,0x80000027U,0x2060U,
6,0x80000031U,0x8000003AU,0x308U,0x80000061U,0x80000027U,0x2060U,
4,0x80000031U,0x8000003AU,0x80000061U,0x8000002CU,
5,0x80000031U,0x8000003AU,0x308U,0x80000061U,0x8000002CU,
4,0x80000031U,0x8000003AU,0x80000031U,0x8000003AU,
5,0x80000031U,0x8000003AU,0x308U,0x80000031U,0x8000003AU,
4,0x80000031U,0x8000003AU,0x80000031U,0x80000027U,
5,0x80000031U,0x8000003AU,0x308U,0x80000031U,0x80000027U,
4,0x80000031U,0x8000003AU,0x80000031U,0x8000002CU,
5,0x80000031U,0x8000003AU,0x308U,0x80000031U,0x8000002CU,
5,0x80000031U,0x8000003AU,0x80000031U,0x8000002EU,0x2060U,
6,0x80000031U,0x8000003AU,0x308U,0x80000031U,0x8000002EU,0x2060U,
3,0x80000031U,0x80000027U,0x80000001U,
4,0x80000031U,0x80000027U,0x308U,0x80000001U,
3,0x80000031U,0x80000027U,0x8000000DU,
4,0x80000031U,0x80000027U,0x308U,0x8000000DU,
3,0x80000031U,0x80000027U,0x8000000AU,
4,0x80000031U,0x80000027U,0x308U,0x8000000AU,
3,0x80000031U,0x80000027U,0x8000000BU,
4,0x80000031U,0x80000027U,0x308U,0x8000000BU,
3,0x80000031U,0x80000027U,0x80003031U,
4,0x80000031U,0x80000027U,0x308U,0x80003031U,
3,0x80000031U,0x80000027U,0x80000041U,
4,0x80000031U,0x80000027U,0x308U,0x80000041U,
3,0x80000031U,0x80000027U,0x8000003AU,
4,0x80000031U,0x80000027U,0x308U,0x8000003AU,
3,0x80000031U,0x80000027U,0x8000002CU,
4,0x80000031U,0x80000027U,0x308U,0x8000002CU,
3,0x80000031U,0x80000027U,0x8000002EU,
4,0x80000031U,0x80000027U,0x308U,0x8000002EU,
3,0x80000031U,0x27U,0x30U,
4,0x80000031U,0x27U,0x308U,0x30U,
3,0x80000031U,0x80000027U,0x8000005FU,
4,0x80000031U,0x80000027U,0x308U,0x8000005FU,
3,0x80000031U,0x80000027U,0x8001F1E6U,
4,0x80000031U,0x80000027U,0x308U,0x8001F1E6U,
3,0x80000031U,0x80000027U,0x800005D0U,
4,0x80000031U,0x80000027U,0x308U,0x800005D0U,
3,0x80000031U,0x80000027U,0x80000022U,
4,0x80000031U,0x80000027U,0x308U,0x80000022U,
3,0x80000031U,0x80000027U,0x80000027U,
4,0x80000031U,0x80000027U,0x308U,0x80000027U,
3,0x80000031U,0x80000027U,0x8000231AU,
4,0x80000031U,0x80000027U,0x308U,0x8000231AU,
3,0x80000031U,0x80000027U,0x80000020U,
4,0x80000031U,0x80000027U,0x308U,0x80000020U,
3,0x80000031U,0x80000027U,0xADU,
4,0x80000031U,0x80000027U,0x308U,0xADU,
3,0x80000031U,0x80000027U,0x300U,
4,0x80000031U,0x80000027U,0x308U,0x300U,
3,0x80000031U,0x80000027U,0x200DU,
4,0x80000031U,0x80000027U,0x308U,0x200DU,
4,0x80000031U,0x80000027U,0x80000061U,0x2060U,
5,0x80000031U,0x80000027U,0x308U,0x80000061U,0x2060U,
4,0x80000031U,0x80000027U,0x80000061U,0x8000003AU,
5,0x80000031U,0x80000027U,0x308U,0x80000061U,0x8000003AU,
4,0x80000031U,0x80000027U,0x80000061U,0x80000027U,
5,0x80000031U,0x80000027U,0x308U,0x80000061U,0x80000027U,
5,0x80000031U,0x80000027U,0x80000061U,0x80000027U,0x2060U,
6,0x80000031U,0x80000027U,0x308U,0x80000061U,0x80000027U,0x2060U,
4,0x80000031U,0x80000027U,0x80000061U,0x8000002CU,
5,0x80000031U,0x80000027U,0x308U,0x80000061U,0x8000002CU,
4,0x80000031U,0x27U,0x31U,0x8000003AU,
5,0x80000031U,0x27U,0x308U,0x31U,0x8000003AU,
4,0x80000031U,0x27U,0x31U,0x80000027U,
5,0x80000031U,0x27U,0x308U,0x31U,0x80000027U,
4,0x80000031U,0x27U,0x31U,0x8000002CU,
5,0x80000031U,0x27U,0x308U,0x31U,0x8000002CU,
5,0x80000031U,0x27U,0x31U,0x8000002EU,0x2060U,
6,0x80000031U,0x27U,0x308U,0x31U,0x8000002EU,0x2060U,
3,0x80000031U,0x8000002CU,0x80000001U,
4,0x80000031U,0x8000002CU,0x308U,0x80000001U,
3,0x80000031U,0x8000002CU,0x8000000DU,
4,0x80000031U,0x8000002CU,0x308U,0x8000000DU,
3,0x80000031U,0x8000002CU,0x8000000AU,
4,0x80000031U,0x8000002CU,0x308U,0x8000000AU,
3,0x80000031U,0x8000002CU,0x8000000BU,
4,0x80000031U,0x8000002CU,0x308U,0x8000000BU,
3,0x80000031U,0x8000002CU,0x80003031U,
4,0x80000031U,0x8000002CU,0x308U,0x80003031U,
3,0x80000031U,0x8000002CU,0x80000041U,
4,0x80000031U,0x8000002CU,0x308U,0x80000041U,
3,0x80000031U,0x8000002CU,0x8000003AU,
4,0x80000031U,0x8000002CU,0x308U,0x8000003AU,
3,0x80000031U,0x8000002CU,0x8000002CU,
4,0x80000031U,0x8000002CU,0x308U,0x8000002CU,
3,0x80000031U,0x8000002CU,0x8000002EU,
4,0x80000031U,0x8000002CU,0x308U,0x8000002EU,
3,0x80000031U,0x2CU,0x30U,
4,0x80000031U,0x2CU,0x308U,0x30U,
3,0x80000031U,0x8000002CU,0x8000005FU,
4,0x80000031U,0x8000002CU,0x308U,0x8000005FU,
3,0x80000031U,0x8000002CU,0x8001F1E6U,
4,0x80000031U,0x8000002CU,0x308U,0x8001F1E6U,
3,0x80000031U,0x8000002CU,0x800005D0U,
4,0x80000031U,0x8000002CU,0x308U,0x800005D0U,
3,0x80000031U,0x8000002CU,0x80000022U,
4,0x80000031U,0x8000002CU,0x308U,0x80000022U,
3,0x80000031U,0x8000002CU,0x80000027U,
4,0x80000031U,0x8000002CU,0x308U,0x80000027U,
3,0x80000031U,0x8000002CU,0x8000231AU,
4,0x80000031U,0x8000002CU,0x308U,0x8000231AU,
3,0x80000031U,0x8000002CU,0x80000020U,
4,0x80000031U,0x8000002CU,0x308U,0x80000020U,
3,0x80000031U,0x8000002CU,0xADU,
4,0x80000031U,0x8000002CU,0x308U,0xADU,
3,0x80000031U,0x8000002CU,0x300U,
4,0x80000031U,0x8000002CU,0x308U,0x300U,
3,0x80000031U,0x8000002CU,0x200DU,
4,0x80000031U,0x8000002CU,0x308U,0x200DU,
4,0x80000031U,0x8000002CU,0x80000061U,0x2060U,
5,0x80000031U,0x8000002CU,0x308U,0x80000061U,0x2060U,
4,0x80000031U,0x8000002CU,0x80000061U,0x8000003AU,
5,0x80000031U,0x8000002CU,0x308U,0x80000061U,0x8000003AU,
4,0x80000031U,0x8000002CU,0x80000061U,0x80000027U,
5,0x80000031U,0x8000002CU,0x308U,0x80000061U,0x80000027U,
5,0x80000031U,0x8000002CU,0x80000061U,0x80000027U,0x2060U,
6,0x80000031U,0x8000002CU,0x308U,0x80000061U,0x80000027U,0x2060U,
4,0x80000031U,0x8000002CU,0x80000061U,0x8000002CU,
5,0x80000031U,0x8000002CU,0x308U,0x80000061U,0x8000002CU,
4,0x80000031U,0x2CU,0x31U,0x8000003AU,
5,0x80000031U,0x2CU,0x308U,0x31U,0x8000003AU,
4,0x80000031U,0x2CU,0x31U,0x80000027U,
5,0x80000031U,0x2CU,0x308U,0x31U,0x80000027U,
4,0x80000031U,0x2CU,0x31U,0x8000002CU,
5,0x80000031U,0x2CU,0x308U,0x31U,0x8000002CU,
5,0x80000031U,0x2CU,0x31U,0x8000002EU,0x2060U,
6,0x80000031U,0x2CU,0x308U,0x31U,0x8000002EU,0x2060U,
4,0x80000031U,0x8000002EU,0x2060U,0x80000001U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000001U,
4,0x80000031U,0x8000002EU,0x2060U,0x8000000DU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000000DU,
4,0x80000031U,0x8000002EU,0x2060U,0x8000000AU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000000AU,
4,0x80000031U,0x8000002EU,0x2060U,0x8000000BU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000000BU,
4,0x80000031U,0x8000002EU,0x2060U,0x80003031U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80003031U,
4,0x80000031U,0x8000002EU,0x2060U,0x80000041U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000041U,
4,0x80000031U,0x8000002EU,0x2060U,0x8000003AU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000003AU,
4,0x80000031U,0x8000002EU,0x2060U,0x8000002CU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000002CU,
4,0x80000031U,0x8000002EU,0x2060U,0x8000002EU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000002EU,
4,0x80000031U,0x2EU,0x2060U,0x30U,
5,0x80000031U,0x2EU,0x2060U,0x308U,0x30U,
4,0x80000031U,0x8000002EU,0x2060U,0x8000005FU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000005FU,
4,0x80000031U,0x8000002EU,0x2060U,0x8001F1E6U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8001F1E6U,
4,0x80000031U,0x8000002EU,0x2060U,0x800005D0U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x800005D0U,
4,0x80000031U,0x8000002EU,0x2060U,0x80000022U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000022U,
4,0x80000031U,0x8000002EU,0x2060U,0x80000027U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000027U,
4,0x80000031U,0x8000002EU,0x2060U,0x8000231AU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x8000231AU,
4,0x80000031U,0x8000002EU,0x2060U,0x80000020U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000020U,
4,0x80000031U,0x8000002EU,0x2060U,0xADU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0xADU,
4,0x80000031U,0x8000002EU,0x2060U,0x300U,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x300U,
4,0x80000031U,0x8000002EU,0x2060U,0x200DU,
5,0x80000031U,0x8000002EU,0x2060U,0x308U,0x200DU,
5,0x80000031U,0x8000002EU,0x2060U,0x80000061U,0x2060U,
6,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000061U,0x2060U,
5,0x80000031U,0x8000002EU,0x2060U,0x80000061U,0x8000003AU,
6,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000061U,0x8000003AU,
5,0x80000031U,0x8000002EU,0x2060U,0x80000061U,0x80000027U,
6,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000061U,0x80000027U,
6,0x80000031U,0x8000002EU,0x2060U,0x80000061U,0x80000027U,0x2060U,
7,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000061U,0x80000027U,0x2060U,
5,0x80000031U,0x8000002EU,0x2060U,0x80000061U,0x8000002CU,
6,0x80000031U,0x8000002EU,0x2060U,0x308U,0x80000061U,0x8000002CU,
5,0x80000031U,0x2EU,0x2060U,0x31U,0x8000003AU,
6,0x80000031U,0x2EU,0x2060U,0x308U,0x31U,0x8000003AU,
5,0x80000031U,0x2EU,0x2060U,0x31U,0x80000027U,
6,0x80000031U,0x2EU,0x2060U,0x308U,0x31U,0x80000027U,
5,0x80000031U,0x2EU,0x2060U,0x31U,0x8000002CU,
6,0x80000031U,0x2EU,0x2060U,0x308U,0x31U,0x8000002CU,
6,0x80000031U,0x2EU,0x2060U,0x31U,0x8000002EU,0x2060U,
7,0x80000031U,0x2EU,0x2060U,0x308U,0x31U,0x8000002EU,0x2060U,
5,0x8000000DU,0xAU,0x80000061U,0x8000000AU,0x80000308U,
2,0x80000061U,0x308U,
3,0x80000020U,0x200DU,0x80000646U,
3,0x80000646U,0x200DU,0x80000020U,
3,0x80000041U,0x41U,0x41U,
3,0x80000041U,0x3AU,0x41U,
4,0x80000041U,0x8000003AU,0x8000003AU,0x80000041U,
2,0x800005D0U,0x27U,
3,0x800005D0U,0x22U,0x5D0U,
4,0x80000041U,0x30U,0x30U,0x41U,
3,0x80000030U,0x2CU,0x30U,
4,0x80000030U,0x8000002CU,0x8000002CU,0x80000030U,
2,0x80003031U,0x3031U,
6,0x80000041U,0x5FU,0x30U,0x5FU,0x3031U,0x5FU,
4,0x80000041U,0x5FU,0x5FU,0x41U,
4,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x80000062U,
5,0x80000061U,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x1F1E7U,0x200DU,0x8001F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x200DU,0x1F1E7U,0x8001F1E8U,0x80000062U,
6,0x80000061U,0x8001F1E6U,0x1F1E7U,0x8001F1E8U,0x1F1E9U,0x80000062U,
3,0x8001F476U,0x1F3FFU,0x8001F476U,
3,0x8001F6D1U,0x200DU,0x1F6D1U,
3,0x80000061U,0x200DU,0x1F6D1U,
3,0x80002701U,0x200DU,0x2701U,
3,0x80000061U,0x200DU,0x2701U,
6,0x8001F476U,0x1F3FFU,0x308U,0x200DU,0x1F476U,0x1F3FFU,
2,0x8001F6D1U,0x1F3FFU,
3,0x8000200DU,0x1F6D1U,0x1F3FFU,
2,0x8000200DU,0x1F6D1U,
2,0x8000200DU,0x1F6D1U,
2,0x8001F6D1U,0x8001F6D1U,
5,0x80000061U,0x308U,0x200DU,0x308U,0x62U,
4,0x80000061U,0x80000020U,0x20U,0x80000062U,
4,0x80000031U,0x8000003AU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000003AU,0x80000031U,
4,0x80000031U,0x8000003AU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000003AU,0x80000061U,
4,0x80000031U,0x8000003AU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000002EU,0x80000031U,
4,0x80000031U,0x8000003AU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000002EU,0x80000061U,
4,0x80000031U,0x8000003AU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000002CU,0x80000031U,
4,0x80000031U,0x8000003AU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000003AU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000003AU,0x8000002CU,0x80000061U,
4,0x80000031U,0x8000002EU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000003AU,0x80000031U,
4,0x80000031U,0x8000002EU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000003AU,0x80000061U,
4,0x80000031U,0x8000002EU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000002EU,0x80000031U,
4,0x80000031U,0x8000002EU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000002EU,0x80000061U,
4,0x80000031U,0x8000002EU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000002CU,0x80000031U,
4,0x80000031U,0x8000002EU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002EU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002EU,0x8000002CU,0x80000061U,
4,0x80000031U,0x8000002CU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000003AU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000003AU,0x80000031U,
4,0x80000031U,0x8000002CU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000003AU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000003AU,0x80000061U,
4,0x80000031U,0x8000002CU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000002EU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000002EU,0x80000031U,
4,0x80000031U,0x8000002CU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000002EU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000002EU,0x80000061U,
4,0x80000031U,0x8000002CU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000002CU,0x80000031U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000002CU,0x80000031U,
4,0x80000031U,0x8000002CU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x31U,0x8000002CU,0x8000002CU,0x80000061U,
6,0x80000031U,0x5FU,0x61U,0x8000002CU,0x8000002CU,0x80000061U,
4,0x80000061U,0x8000003AU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000003AU,0x80000031U,
4,0x80000061U,0x8000003AU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000003AU,0x80000061U,
4,0x80000061U,0x8000003AU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000002EU,0x80000031U,
4,0x80000061U,0x8000003AU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000002EU,0x80000061U,
4,0x80000061U,0x8000003AU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000002CU,0x80000031U,
4,0x80000061U,0x8000003AU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000003AU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000003AU,0x8000002CU,0x80000061U,
4,0x80000061U,0x8000002EU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000003AU,0x80000031U,
4,0x80000061U,0x8000002EU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000003AU,0x80000061U,
4,0x80000061U,0x8000002EU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000002EU,0x80000031U,
4,0x80000061U,0x8000002EU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000002EU,0x80000061U,
4,0x80000061U,0x8000002EU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000002CU,0x80000031U,
4,0x80000061U,0x8000002EU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002EU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002EU,0x8000002CU,0x80000061U,
4,0x80000061U,0x8000002CU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000003AU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000003AU,0x80000031U,
4,0x80000061U,0x8000002CU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000003AU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000003AU,0x80000061U,
4,0x80000061U,0x8000002CU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000002EU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000002EU,0x80000031U,
4,0x80000061U,0x8000002CU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000002EU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000002EU,0x80000061U,
4,0x80000061U,0x8000002CU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000002CU,0x80000031U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000002CU,0x80000031U,
4,0x80000061U,0x8000002CU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x31U,0x8000002CU,0x8000002CU,0x80000061U,
6,0x80000061U,0x5FU,0x61U,0x8000002CU,0x8000002CU,0x80000061U,
0xFFFFFFFFU};
static const uint32_t SEED_S[] = {
2,0x80000001U,0x1U,
3,0x80000001U,0x308U,0x1U,
2,0x80000001U,0xDU,
3,0x80000001U,0x308U,0xDU,
2,0x80000001U,0xAU,
3,0x80000001U,0x308U,0xAU,
2,0x80000001U,0x85U,
3,0x80000001U,0x308U,0x85U,
2,0x80000001U,0x9U,
3,0x80000001U,0x308U,0x9U,
2,0x80000001U,0x61U,
3,0x80000001U,0x308U,0x61U,
2,0x80000001U,0x41U,
3,0x80000001U,0x308U,0x41U,
2,0x80000001U,0x1BBU,
3,0x80000001U,0x308U,0x1BBU,
2,0x80000001U,0x30U,
3,0x80000001U,0x308U,0x30U,
2,0x80000001U,0x2EU,
3,0x80000001U,0x308U,0x2EU,
2,0x80000001U,0x21U,
3,0x80000001U,0x308U,0x21U,
2,0x80000001U,0x22U,
3,0x80000001U,0x308U,0x22U,
2,0x80000001U,0x2CU,
3,0x80000001U,0x308U,0x2CU,
2,0x80000001U,0xADU,
3,0x80000001U,0x308U,0xADU,
2,0x80000001U,0x300U,
3,0x80000001U,0x308U,0x300U,
2,0x8000000DU,0x80000001U,
3,0x8000000DU,0x80000308U,0x1U,
2,0x8000000DU,0x8000000DU,
3,0x8000000DU,0x80000308U,0xDU,
2,0x8000000DU,0xAU,
3,0x8000000DU,0x80000308U,0xAU,
2,0x8000000DU,0x80000085U,
3,0x8000000DU,0x80000308U,0x85U,
2,0x8000000DU,0x80000009U,
3,0x8000000DU,0x80000308U,0x9U,
2,0x8000000DU,0x80000061U,
3,0x8000000DU,0x80000308U,0x61U,
2,0x8000000DU,0x80000041U,
3,0x8000000DU,0x80000308U,0x41U,
2,0x8000000DU,0x800001BBU,
3,0x8000000DU,0x80000308U,0x1BBU,
2,0x8000000DU,0x80000030U,
3,0x8000000DU,0x80000308U,0x30U,
2,0x8000000DU,0x8000002EU,
3,0x8000000DU,0x80000308U,0x2EU,
2,0x8000000DU,0x80000021U,
3,0x8000000DU,0x80000308U,0x21U,
2,0x8000000DU,0x80000022U,
3,0x8000000DU,0x80000308U,0x22U,
2,0x8000000DU,0x8000002CU,
3,0x8000000DU,0x80000308U,0x2CU,
2,0x8000000DU,0x800000ADU,
3,0x8000000DU,0x80000308U,0xADU,
2,0x8000000DU,0x80000300U,
3,0x8000000DU,0x80000308U,0x300U,
2,0x8000000AU,0x80000001U,
3,0x8000000AU,0x80000308U,0x1U,
2,0x8000000AU,0x8000000DU,
3,0x8000000AU,0x80000308U,0xDU,
2,0x8000000AU,0x8000000AU,
3,0x8000000AU,0x80000308U,0xAU,
2,0x8000000AU,0x80000085U,
3,0x8000000AU,0x80000308U,0x85U,
2,0x8000000AU,0x80000009U,
3,0x8000000AU,0x80000308U,0x9U,
2,0x8000000AU,0x80000061U,
3,0x8000000AU,0x80000308U,0x61U,
2,0x8000000AU,0x80000041U,
3,0x8000000AU,0x80000308U,0x41U,
2,0x8000000AU,0x800001BBU,
3,0x8000000AU,0x80000308U,0x1BBU,
2,0x8000000AU,0x80000030U,
3,0x8000000AU,0x80000308U,0x30U,
2,0x8000000AU,0x8000002EU,
3,0x8000000AU,0x80000308U,0x2EU,
2,0x8000000AU,0x80000021U,
3,0x8000000AU,0x80000308U,0x21U,
2,0x8000000AU,0x80000022U,
3,0x8000000AU,0x80000308U,0x22U,
2,0x8000000AU,0x8000002CU,
3,0x8000000AU,0x80000308U,0x2CU,
2,0x8000000AU,0x800000ADU,
3,0x8000000AU,0x80000308U,0xADU,
2,0x8000000AU,0x80000300U,
3,0x8000000AU,0x80000308U,0x300U,
2,0x80000085U,0x80000001U,
3,0x80000085U,0x80000308U,0x1U,
2,0x80000085U,0x8000000DU,
3,0x80000085U,0x80000308U,0xDU,
2,0x80000085U,0x8000000AU,
3,0x80000085U,0x80000308U,0xAU,
2,0x80000085U,0x80000085U,
3,0x80000085U,0x80000308U,0x85U,
2,0x80000085U,0x80000009U,
3,0x80000085U,0x80000308U,0x9U,
2,0x80000085U,0x80000061U,
3,0x80000085U,0x80000308U,0x61U,
2,0x80000085U,0x80000041U,
3,0x80000085U,0x80000308U,0x41U,
2,0x80000085U,0x800001BBU,
3,0x80000085U,0x80000308U,0x1BBU,
2,0x80000085U,0x80000030U,
3,0x80000085U,0x80000308U,0x30U,
2,0x80000085U,0x8000002EU,
3,0x80000085U,0x80000308U,0x2EU,
2,0x80000085U,0x80000021U,
3,0x80000085U,0x80000308U,0x21U,
2,0x80000085U,0x80000022U,
3,0x80000085U,0x80000308U,0x22U,
2,0x80000085U,0x8000002CU,
3,0x80000085U,0x80000308U,0x2CU,
2,0x80000085U,0x800000ADU,
3,0x80000085U,0x80000308U,0xADU,
2,0x80000085U,0x80000300U,
3,0x80000085U,0x80000308U,0x300U,
2,0x80000009U,0x1U,
3,0x80000009U,0x308U,0x1U,
2,0x80000009U,0xDU,
3,0x80000009U,0x308U,0xDU,
2,0x80000009U,0xAU,
3,0x80000009U,0x308U,0xAU,
2,0x80000009U,0x85U,
3,0x80000009U,0x308U,0x85U,
2,0x80000009U,0x9U,
3,0x80000009U,0x308U,0x9U,
2,0x80000009U,0x61U,
3,0x80000009U,0x308U,0x61U,
2,0x80000009U,0x41U,
3,0x80000009U,0x308U,0x41U,
2,0x80000009U,0x1BBU,
3,0x80000009U,0x308U,0x1BBU,
2,0x80000009U,0x30U,
3,0x80000009U,0x308U,0x30U,
2,0x80000009U,0x2EU,
3,0x80000009U,0x308U,0x2EU,
2,0x80000009U,0x21U,
3,0x80000009U,0x308U,0x21U,
2,0x80000009U,0x22U,
3,0x80000009U,0x308U,0x22U,
2,0x80000009U,0x2CU,
3,0x80000009U,0x308U,0x2CU,
2,0x80000009U,0xADU,
3,0x80000009U,0x308U,0xADU,
2,0x80000009U,0x300U,
3,0x80000009U,0x308U,0x300U,
2,0x80000061U,0x1U,
3,0x80000061U,0x308U,0x1U,
2,0x80000061U,0xDU,
3,0x80000061U,0x308U,0xDU,
2,0x80000061U,0xAU,
3,0x80000061U,0x308U,0xAU,
2,0x80000061U,0x85U,
3,0x80000061U,0x308U,0x85U,
2,0x80000061U,0x9U,
3,0x80000061U,0x308U,0x9U,
2,0x80000061U,0x61U,
3,0x80000061U,0x308U,0x61U,
2,0x80000061U,0x41U,
3,0x80000061U,0x308U,0x41U,
2,0x80000061U,0x1BBU,
3,0x80000061U,0x308U,0x1BBU,
2,0x80000061U,0x30U,
3,0x80000061U,0x308U,0x30U,
2,0x80000061U,0x2EU,
3,0x80000061U,0x308U,0x2EU,
2,0x80000061U,0x21U,
3,0x80000061U,0x308U,0x21U,
2,0x80000061U,0x22U,
3,0x80000061U,0x308U,0x22U,
2,0x80000061U,0x2CU,
3,0x80000061U,0x308U,0x2CU,
2,0x80000061U,0xADU,
3,0x80000061U,0x308U,0xADU,
2,0x80000061U,0x300U,
3,0x80000061U,0x308U,0x300U,
2,0x80000041U,0x1U,
3,0x80000041U,0x308U,0x1U,
2,0x80000041U,0xDU,
3,0x80000041U,0x308U,0xDU,
2,0x80000041U,0xAU,
3,0x80000041U,0x308U,0xAU,
2,0x80000041U,0x85U,
3,0x80000041U,0x308U,0x85U,
2,0x80000041U,0x9U,
3,0x80000041U,0x308U,0x9U,
2,0x80000041U,0x61U,
3,0x80000041U,0x308U,0x61U,
2,0x80000041U,0x41U,
3,0x80000041U,0x308U,0x41U,
2,0x80000041U,0x1BBU,
3,0x80000041U,0x308U,0x1BBU,
2,0x80000041U,0x30U,
3,0x80000041U,0x308U,0x30U,
2,0x80000041U,0x2EU,
3,0x80000041U,0x308U,0x2EU,
2,0x80000041U,0x21U,
3,0x80000041U,0x308U,0x21U,
2,0x80000041U,0x22U,
3,0x80000041U,0x308U,0x22U,
2,0x80000041U,0x2CU,
3,0x80000041U,0x308U,0x2CU,
2,0x80000041U,0xADU,
3,0x80000041U,0x308U,0xADU,
2,0x80000041U,0x300U,
3,0x80000041U,0x308U,0x300U,
2,0x800001BBU,0x1U,
3,0x800001BBU,0x308U,0x1U,
2,0x800001BBU,0xDU,
3,0x800001BBU,0x308U,0xDU,
2,0x800001BBU,0xAU,
3,0x800001BBU,0x308U,0xAU,
2,0x800001BBU,0x85U,
3,0x800001BBU,0x308U,0x85U,
2,0x800001BBU,0x9U,
3,0x800001BBU,0x308U,0x9U,
2,0x800001BBU,0x61U,
3,0x800001BBU,0x308U,0x61U,
2,0x800001BBU,0x41U,
3,0x800001BBU,0x308U,0x41U,
2,0x800001BBU,0x1BBU,
3,0x800001BBU,0x308U,0x1BBU,
2,0x800001BBU,0x30U,
3,0x800001BBU,0x308U,0x30U,
2,0x800001BBU,0x2EU,
3,0x800001BBU,0x308U,0x2EU,
2,0x800001BBU,0x21U,
3,0x800001BBU,0x308U,0x21U,
2,0x800001BBU,0x22U,
3,0x800001BBU,0x308U,0x22U,
2,0x800001BBU,0x2CU,
3,0x800001BBU,0x308U,0x2CU,
2,0x800001BBU,0xADU,
3,0x800001BBU,0x308U,0xADU,
2,0x800001BBU,0x300U,
3,0x800001BBU,0x308U,0x300U,
2,0x80000030U,0x1U,
3,0x80000030U,0x308U,0x1U,
2,0x80000030U,0xDU,
3,0x80000030U,0x308U,0xDU,
2,0x80000030U,0xAU,
3,0x80000030U,0x308U,0xAU,
2,0x80000030U,0x85U,
3,0x80000030U,0x308U,0x85U,
2,0x80000030U,0x9U,
3,0x80000030U,0x308U,0x9U,
2,0x80000030U,0x61U,
3,0x80000030U,0x308U,0x61U,
2,0x80000030U,0x41U,
3,0x80000030U,0x308U,0x41U,
2,0x80000030U,0x1BBU,
3,0x80000030U,0x308U,0x1BBU,
2,0x80000030U,0x30U,
3,0x80000030U,0x308U,0x30U,
2,0x80000030U,0x2EU,
3,0x80000030U,0x308U,0x2EU,
2,0x80000030U,0x21U,
3,0x80000030U,0x308U,0x21U,
2,0x80000030U,0x22U,
3,0x80000030U,0x308U,0x22U,
2,0x80000030U,0x2CU,
3,0x80000030U,0x308U,0x2CU,
2,0x80000030U,0xADU,
3,0x80000030U,0x308U,0xADU,
2,0x80000030U,0x300U,
3,0x80000030U,0x308U,0x300U,
2,0x8000002EU,0x80000001U,
3,0x8000002EU,0x308U,0x80000001U,
2,0x8000002EU,0xDU,
3,0x8000002EU,0x308U,0xDU,
2,0x8000002EU,0xAU,
3,0x8000002EU,0x308U,0xAU,
2,0x8000002EU,0x85U,
3,0x8000002EU,0x308U,0x85U,
2,0x8000002EU,0x9U,
3,0x8000002EU,0x308U,0x9U,
2,0x8000002EU,0x61U,
3,0x8000002EU,0x308U,0x61U,
2,0x8000002EU,0x80000041U,
3,0x8000002EU,0x308U,0x80000041U,
2,0x8000002EU,0x800001BBU,
3,0x8000002EU,0x308U,0x800001BBU,
2,0x8000002EU,0x30U,
3,0x8000002EU,0x308U,0x30U,
2,0x8000002EU,0x2EU,
3,0x8000002EU,0x308U,0x2EU,
2,0x8000002EU,0x21U,
3,0x8000002EU,0x308U,0x21U,
2,0x8000002EU,0x22U,
3,0x8000002EU,0x308U,0x22U,
2,0x8000002EU,0x2CU,
3,0x8000002EU,0x308U,0x2CU,
2,0x8000002EU,0xADU,
3,0x8000002EU,0x308U,0xADU,
2,0x8000002EU,0x300U,
3,0x8000002EU,0x308U,0x300U,
2,0x80000021U,0x80000001U,
3,0x80000021U,0x308U,0x80000001U,
2,0x80000021U,0xDU,
3,0x80000021U,0x308U,0xDU,
2,0x80000021U,0xAU,
3,0x80000021U,0x308U,0xAU,
2,0x80000021U,0x85U,
3,0x80000021U,0x308U,0x85U,
2,0x80000021U,0x9U,
3,0x80000021U,0x308U,0x9U,
2,0x80000021U,0x80000061U,
3,0x80000021U,0x308U,0x80000061U,
2,0x80000021U,0x80000041U,
3,0x80000021U,0x308U,0x80000041U,
2,0x80000021U,0x800001BBU,
3,0x80000021U,0x308U,0x800001BBU,
2,0x80000021U,0x80000030U,
3,0x80000021U,0x308U,0x80000030U,
2,0x80000021U,0x2EU,
3,0x80000021U,0x308U,0x2EU,
2,0x80000021U,0x21U,
3,0x80000021U,0x308U,0x21U,
2,0x80000021U,0x22U,
3,0x80000021U,0x308U,0x22U,
2,0x80000021U,0x2CU,
3,0x80000021U,0x308U,0x2CU,
2,0x80000021U,0xADU,
3,0x80000021U,0x308U,0xADU,
2,0x80000021U,0x300U,
3,0x80000021U,0x308U,0x300U,
2,0x80000022U,0x1U,
3,0x80000022U,0x308U,0x1U,
2,0x80000022U,0xDU,
3,0x80000022U,0x308U,0xDU,
2,0x80000022U,0xAU,
3,0x80000022U,0x308U,0xAU,
2,0x80000022U,0x85U,
3,0x80000022U,0x308U,0x85U,
2,0x80000022U,0x9U,
3,0x80000022U,0x308U,0x9U,
2,0x80000022U,0x61U,
3,0x80000022U,0x308U,0x61U,
2,0x80000022U,0x41U,
3,0x80000022U,0x308U,0x41U,
2,0x80000022U,0x1BBU,
3,0x80000022U,0x308U,0x1BBU,
2,0x80000022U,0x30U,
3,0x80000022U,0x308U,0x30U,
2,0x80000022U,0x2EU,
3,0x80000022U,0x308U,0x2EU,
2,0x80000022U,0x21U,
3,0x80000022U,0x308U,0x21U,
2,0x80000022U,0x22U,
3,0x80000022U,0x308U,0x22U,
2,0x80000022U,0x2CU,
3,0x80000022U,0x308U,0x2CU,
2,0x80000022U,0xADU,
3,0x80000022U,0x308U,0xADU,
2,0x80000022U,0x300U,
3,0x80000022U,0x308U,0x300U,
2,0x8000002CU,0x1U,
3,0x8000002CU,0x308U,0x1U,
2,0x8000002CU,0xDU,
3,0x8000002CU,0x308U,0xDU,
2,0x8000002CU,0xAU,
3,0x8000002CU,0x308U,0xAU,
2,0x8000002CU,0x85U,
3,0x8000002CU,0x308U,0x85U,
2,0x8000002CU,0x9U,
3,0x8000002CU,0x308U,0x9U,
2,0x8000002CU,0x61U,
3,0x8000002CU,0x308U,0x61U,
2,0x8000002CU,0x41U,
3,0x8000002CU,0x308U,0x41U,
2,0x8000002CU,0x1BBU,
3,0x8000002CU,0x308U,0x1BBU,
2,0x8000002CU,0x30U,
3,0x8000002CU,0x308U,0x30U,
2,0x8000002CU,0x2EU,
3,0x8000002CU,0x308U,0x2EU,
2,0x8000002CU,0x21U,
3,0x8000002CU,0x308U,0x21U,
2,0x8000002CU,0x22U,
3,0x8000002CU,0x308U,0x22U,
2,0x8000002CU,0x2CU,
3,0x8000002CU,0x308U,0x2CU,
2,0x8000002CU,0xADU,
3,0x8000002CU,0x308U,0xADU,
2,0x8000002CU,0x300U,
3,0x8000002CU,0x308U,0x300U,
2,0x800000ADU,0x1U,
3,0x800000ADU,0x308U,0x1U,
2,0x800000ADU,0xDU,
3,0x800000ADU,0x308U,0xDU,
2,0x800000ADU,0xAU,
3,0x800000ADU,0x308U,0xAU,
2,0x800000ADU,0x85U,
3,0x800000ADU,0x308U,0x85U,
2,0x800000ADU,0x9U,
3,0x800000ADU,0x308U,0x9U,
2,0x800000ADU,0x61U,
3,0x800000ADU,0x308U,0x61U,
2,0x800000ADU,0x41U,
3,0x800000ADU,0x308U,0x41U,
2,0x800000ADU,0x1BBU,
3,0x800000ADU,0x308U,0x1BBU,
2,0x800000ADU,0x30U,
3,0x800000ADU,0x308U,0x30U,
2,0x800000ADU,0x2EU,
3,0x800000ADU,0x308U,0x2EU,
2,0x800000ADU,0x21U,
3,0x800000ADU,0x308U,0x21U,
2,0x800000ADU,0x22U,
3,0x800000ADU,0x308U,0x22U,
2,0x800000ADU,0x2CU,
3,0x800000ADU,0x308U,0x2CU,
2,0x800000ADU,0xADU,
3,0x800000ADU,0x308U,0xADU,
2,0x800000ADU,0x300U,
3,0x800000ADU,0x308U,0x300U,
2,0x80000300U,0x1U,
3,0x80000300U,0x308U,0x1U,
2,0x80000300U,0xDU,
3,0x80000300U,0x308U,0xDU,
2,0x80000300U,0xAU,
3,0x80000300U,0x308U,0xAU,
2,0x80000300U,0x85U,
3,0x80000300U,0x308U,0x85U,
2,0x80000300U,0x9U,
3,0x80000300U,0x308U,0x9U,
2,0x80000300U,0x61U,
3,0x80000300U,0x308U,0x61U,
2,0x80000300U,0x41U,
3,0x80000300U,0x308U,0x41U,
2,0x80000300U,0x1BBU,
3,0x80000300U,0x308U,0x1BBU,
2,0x80000300U,0x30U,
3,0x80000300U,0x308U,0x30U,
2,0x80000300U,0x2EU,
3,0x80000300U,0x308U,0x2EU,
2,0x80000300U,0x21U,
3,0x80000300U,0x308U,0x21U,
2,0x80000300U,0x22U,
3,0x80000300U,0x308U,0x22U,
2,0x80000300U,0x2CU,
3,0x80000300U,0x308U,0x2CU,
2,0x80000300U,0xADU,
3,0x80000300U,0x308U,0xADU,
2,0x80000300U,0x300U,
3,0x80000300U,0x308U,0x300U,
5,0x8000000DU,0xAU,0x80000061U,0xAU,0x80000308U,
2,0x80000061U,0x308U,
3,0x80000020U,0x200DU,0x646U,
3,0x80000646U,0x200DU,0x20U,
17,0x80000028U,0x22U,0x47U,0x6FU,0x2EU,0x22U,0x29U,0x20U,0x80000028U,0x48U,0x65U,0x20U,0x64U,0x69U,0x64U,0x2EU,0x29U,
17,0x80000028U,0x201CU,0x47U,0x6FU,0x3FU,0x201DU,0x29U,0x20U,0x80000028U,0x48U,0x65U,0x20U,0x64U,0x69U,0x64U,0x2EU,0x29U,
10,0x80000055U,0x2EU,0x53U,0x2EU,0x41U,0x300U,0x2EU,0x20U,0x69U,0x73U,
10,0x80000055U,0x2EU,0x53U,0x2EU,0x41U,0x300U,0x3FU,0x20U,0x80000048U,0x65U,
7,0x80000055U,0x2EU,0x53U,0x2EU,0x41U,0x300U,0x2EU,
3,0x80000033U,0x2EU,0x34U,
3,0x80000063U,0x2EU,0x64U,
3,0x80000043U,0x2EU,0x64U,
3,0x80000063U,0x2EU,0x44U,
3,0x80000043U,0x2EU,0x44U,
10,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x74U,0x68U,0x65U,
10,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x80000054U,0x68U,0x65U,
12,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x2018U,0x28U,0x74U,0x68U,0x65U,
12,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x80002018U,0x28U,0x54U,0x68U,0x65U,
11,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x308U,0x74U,0x68U,0x65U,
11,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0xA0U,0x308U,0x80000054U,0x68U,0x65U,
10,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0x2019U,0x308U,0x80000054U,0x68U,0x65U,
10,0x80000065U,0x74U,0x63U,0x2EU,0x29U,0xAU,0x80000308U,0x54U,0x68U,0x65U,
21,0x80000074U,0x68U,0x65U,0x20U,0x72U,0x65U,0x73U,0x70U,0x2EU,0x20U,0x6CU,0x65U,0x61U,0x64U,0x65U,0x72U,0x73U,0x20U,0x61U,0x72U,0x65U,
3,0x80005B57U,0x2EU,0x80005B57U,
5,0x80000065U,0x74U,0x63U,0x2EU,0x80005B83U,
5,0x80000065U,0x74U,0x63U,0x2EU,0x3002U,
3,0x80005B57U,0x3002U,0x80005B83U,
3,0x80000021U,0x20U,0x20U,
36,0x80002060U,0x28U,0x2060U,0x22U,0x2060U,0x47U,0x2060U,0x6FU,0x2060U,0x2EU,0x2060U,0x22U,0x2060U,0x29U,0x2060U,0x20U,0x2060U,0x80000028U,0x2060U,0x48U,0x2060U,0x65U,0x2060U,0x20U,0x2060U,0x64U,0x2060U,0x69U,0x2060U,0x64U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2060U,
36,0x80002060U,0x28U,0x2060U,0x201CU,0x2060U,0x47U,0x2060U,0x6FU,0x2060U,0x3FU,0x2060U,0x201DU,0x2060U,0x29U,0x2060U,0x20U,0x2060U,0x80000028U,0x2060U,0x48U,0x2060U,0x65U,0x2060U,0x20U,0x2060U,0x64U,0x2060U,0x69U,0x2060U,0x64U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2060U,
21,0x80002060U,0x55U,0x2060U,0x2EU,0x2060U,0x53U,0x2060U,0x2EU,0x2060U,0x41U,0x2060U,0x300U,0x2EU,0x2060U,0x20U,0x2060U,0x69U,0x2060U,0x73U,0x2060U,0x2060U,
21,0x80002060U,0x55U,0x2060U,0x2EU,0x2060U,0x53U,0x2060U,0x2EU,0x2060U,0x41U,0x2060U,0x300U,0x3FU,0x2060U,0x20U,0x2060U,0x80000048U,0x2060U,0x65U,0x2060U,0x2060U,
15,0x80002060U,0x55U,0x2060U,0x2EU,0x2060U,0x53U,0x2060U,0x2EU,0x2060U,0x41U,0x2060U,0x300U,0x2EU,0x2060U,0x2060U,
8,0x80002060U,0x33U,0x2060U,0x2EU,0x2060U,0x34U,0x2060U,0x2060U,
8,0x80002060U,0x63U,0x2060U,0x2EU,0x2060U,0x64U,0x2060U,0x2060U,
8,0x80002060U,0x43U,0x2060U,0x2EU,0x2060U,0x64U,0x2060U,0x2060U,
8,0x80002060U,0x63U,0x2060U,0x2EU,0x2060U,0x44U,0x2060U,0x2060U,
8,0x80002060U,0x43U,0x2060U,0x2EU,0x2060U,0x44U,0x2060U,0x2060U,
22,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x74U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
22,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x80000054U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
26,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x2018U,0x2060U,0x28U,0x2060U,0x74U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
26,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x80002018U,0x2060U,0x28U,0x2060U,0x54U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
23,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x308U,0x74U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
23,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0xA0U,0x2060U,0x308U,0x80000054U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
21,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0x2019U,0x2060U,0x308U,0x80000054U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
22,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x29U,0x2060U,0xAU,0x80002060U,0x308U,0x2060U,0x54U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x2060U,
44,0x80002060U,0x74U,0x2060U,0x68U,0x2060U,0x65U,0x2060U,0x20U,0x2060U,0x72U,0x2060U,0x65U,0x2060U,0x73U,0x2060U,0x70U,0x2060U,0x2EU,0x2060U,0x20U,0x2060U,0x6CU,0x2060U,0x65U,0x2060U,0x61U,0x2060U,0x64U,0x2060U,0x65U,0x2060U,0x72U,0x2060U,0x73U,0x2060U,0x20U,0x2060U,0x61U,0x2060U,0x72U,0x2060U,0x65U,0x2060U,0x2060U,
8,0x80002060U,0x5B57U,0x2060U,0x2EU,0x2060U,0x80005B57U,0x2060U,0x2060U,
12,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x80005B83U,0x2060U,0x2060U,
12,0x80002060U,0x65U,0x2060U,0x74U,0x2060U,0x63U,0x2060U,0x2EU,0x2060U,0x3002U,0x2060U,0x2060U,
8,0x80002060U,0x5B57U,0x2060U,0x3002U,0x2060U,0x80005B83U,0x2060U,0x2060U,
8,0x80002060U,0x21U,0x2060U,0x20U,0x2060U,0x20U,0x2060U,0x2060U,
0xFFFFFFFFU};
static const uint32_t SEED_L[] = {
2,0x23U,0x23U,
3,0x23U,0x20U,0x80000023U,
3,0x23U,0x308U,0x23U,
4,0x23U,0x308U,0x20U,0x80000023U,
2,0x23U,0x80002014U,
3,0x23U,0x20U,0x80002014U,
3,0x23U,0x308U,0x80002014U,
4,0x23U,0x308U,0x20U,0x80002014U,
2,0x23U,0x9U,
3,0x23U,0x20U,0x80000009U,
3,0x23U,0x308U,0x9U,
4,0x23U,0x308U,0x20U,0x80000009U,
2,0x23U,0x800000B4U,
3,0x23U,0x20U,0x800000B4U,
3,0x23U,0x308U,0x800000B4U,
4,0x23U,0x308U,0x20U,0x800000B4U,
2,0x23U,0xBU,
3,0x23U,0x20U,0xBU,
3,0x23U,0x308U,0xBU,
4,0x23U,0x308U,0x20U,0xBU,
2,0x23U,0x8000FFFCU,
3,0x23U,0x20U,0x8000FFFCU,
3,0x23U,0x308U,0x8000FFFCU,
4,0x23U,0x308U,0x20U,0x8000FFFCU,
2,0x23U,0x7DU,
3,0x23U,0x20U,0x7DU,
3,0x23U,0x308U,0x7DU,
4,0x23U,0x308U,0x20U,0x7DU,
2,0x23U,0xDU,
3,0x23U,0x20U,0xDU,
3,0x23U,0x308U,0xDU,
4,0x23U,0x308U,0x20U,0xDU,
2,0x23U,0x21U,
3,0x23U,0x20U,0x21U,
3,0x23U,0x308U,0x21U,
4,0x23U,0x308U,0x20U,0x21U,
2,0x23U,0xA0U,
3,0x23U,0x20U,0x800000A0U,
3,0x23U,0x308U,0xA0U,
4,0x23U,0x308U,0x20U,0x800000A0U,
2,0x23U,0x8000AC00U,
3,0x23U,0x20U,0x8000AC00U,
3,0x23U,0x308U,0x8000AC00U,
4,0x23U,0x308U,0x20U,0x8000AC00U,
2,0x23U,0x8000AC01U,
3,0x23U,0x20U,0x8000AC01U,
3,0x23U,0x308U,0x8000AC01U,
4,0x23U,0x308U,0x20U,0x8000AC01U,
2,0x23U,0x5D0U,
3,0x23U,0x20U,0x800005D0U,
3,0x23U,0x308U,0x5D0U,
4,0x23U,0x308U,0x20U,0x800005D0U,
2,0x23U,0x2DU,
3,0x23U,0x20U,0x8000002DU,
3,0x23U,0x308U,0x2DU,
4,0x23U,0x308U,0x20U,0x8000002DU,
2,0x23U,0x8000231AU,
3,0x23U,0x20U,0x8000231AU,
3,0x23U,0x308U,0x8000231AU,
4,0x23U,0x308U,0x20U,0x8000231AU,
2,0x23U,0x2024U,
3,0x23U,0x20U,0x80002024U,
3,0x23U,0x308U,0x2024U,
4,0x23U,0x308U,0x20U,0x80002024U,
2,0x23U,0x2CU,
3,0x23U,0x20U,0x2CU,
3,0x23U,0x308U,0x2CU,
4,0x23U,0x308U,0x20U,0x2CU,
2,0x23U,0x80001100U,
3,0x23U,0x20U,0x80001100U,
3,0x23U,0x308U,0x80001100U,
4,0x23U,0x308U,0x20U,0x80001100U,
2,0x23U,0x800011A8U,
3,0x23U,0x20U,0x800011A8U,
3,0x23U,0x308U,0x800011A8U,
4,0x23U,0x308U,0x20U,0x800011A8U,
2,0x23U,0x80001160U,
3,0x23U,0x20U,0x80001160U,
3,0x23U,0x308U,0x80001160U,
4,0x23U,0x308U,0x20U,0x80001160U,
2,0x23U,0xAU,
3,0x23U,0x20U,0xAU,
3,0x23U,0x308U,0xAU,
4,0x23U,0x308U,0x20U,0xAU,
2,0x23U,0x85U,
3,0x23U,0x20U,0x85U,
3,0x23U,0x308U,0x85U,
4,0x23U,0x308U,0x20U,0x85U,
2,0x23U,0x17D6U,
3,0x23U,0x20U,0x800017D6U,
3,0x23U,0x308U,0x17D6U,
4,0x23U,0x308U,0x20U,0x800017D6U,
2,0x23U,0x30U,
3,0x23U,0x20U,0x80000030U,
3,0x23U,0x308U,0x30U,
4,0x23U,0x308U,0x20U,0x80000030U,
2,0x23U,0x80002329U,
3,0x23U,0x20U,0x80002329U,
3,0x23U,0x308U,0x80002329U,
4,0x23U,0x308U,0x20U,0x80002329U,
2,0x23U,0x25U,
3,0x23U,0x20U,0x80000025U,
3,0x23U,0x308U,0x25U,
4,0x23U,0x308U,0x20U,0x80000025U,
2,0x23U,0x24U,
3,0x23U,0x20U,0x80000024U,
3,0x23U,0x308U,0x24U,
4,0x23U,0x308U,0x20U,0x80000024U,
2,0x23U,0x22U,
3,0x23U,0x20U,0x80000022U,
3,0x23U,0x308U,0x22U,
4,0x23U,0x308U,0x20U,0x80000022U,
2,0x23U,0x20U,
3,0x23U,0x20U,0x20U,
3,0x23U,0x308U,0x20U,
4,0x23U,0x308U,0x20U,0x20U,
2,0x23U,0x2FU,
3,0x23U,0x20U,0x2FU,
3,0x23U,0x308U,0x2FU,
4,0x23U,0x308U,0x20U,0x2FU,
2,0x23U,0x2060U,
3,0x23U,0x20U,0x2060U,
3,0x23U,0x308U,0x2060U,
4,0x23U,0x308U,0x20U,0x2060U,
2,0x23U,0x200BU,
3,0x23U,0x20U,0x200BU,
3,0x23U,0x308U,0x200BU,
4,0x23U,0x308U,0x20U,0x200BU,
2,0x23U,0x8001F1E6U,
3,0x23U,0x20U,0x8001F1E6U,
3,0x23U,0x308U,0x8001F1E6U,
4,0x23U,0x308U,0x20U,0x8001F1E6U,
2,0x23U,0x8000261DU,
3,0x23U,0x20U,0x8000261DU,
3,0x23U,0x308U,0x8000261DU,
4,0x23U,0x308U,0x20U,0x8000261DU,
2,0x23U,0x8001F3FBU,
3,0x23U,0x20U,0x8001F3FBU,
3,0x23U,0x308U,0x8001F3FBU,
4,0x23U,0x308U,0x20U,0x8001F3FBU,
2,0x23U,0x29U,
3,0x23U,0x20U,0x29U,
3,0x23U,0x308U,0x29U,
4,0x23U,0x308U,0x20U,0x29U,
2,0x23U,0x28U,
3,0x23U,0x20U,0x80000028U,
3,0x23U,0x308U,0x28U,
4,0x23U,0x308U,0x20U,0x80000028U,
2,0x23U,0x1U,
3,0x23U,0x20U,0x80000001U,
3,0x23U,0x308U,0x1U,
4,0x23U,0x308U,0x20U,0x80000001U,
2,0x23U,0x200DU,
3,0x23U,0x20U,0x8000200DU,
3,0x23U,0x308U,0x200DU,
4,0x23U,0x308U,0x20U,0x8000200DU,
2,0x23U,0xA7U,
3,0x23U,0x20U,0x800000A7U,
3,0x23U,0x308U,0xA7U,
4,0x23U,0x308U,0x20U,0x800000A7U,
2,0x23U,0x50005U,
3,0x23U,0x20U,0x80050005U,
3,0x23U,0x308U,0x50005U,
4,0x23U,0x308U,0x20U,0x80050005U,
2,0x23U,0xE01U,
3,0x23U,0x20U,0x80000E01U,
3,0x23U,0x308U,0xE01U,
4,0x23U,0x308U,0x20U,0x80000E01U,
2,0x23U,0x3041U,
3,0x23U,0x20U,0x80003041U,
3,0x23U,0x308U,0x3041U,
4,0x23U,0x308U,0x20U,0x80003041U,
2,0x2014U,0x80000023U,
3,0x2014U,0x20U,0x80000023U,
3,0x2014U,0x308U,0x80000023U,
4,0x2014U,0x308U,0x20U,0x80000023U,
2,0x2014U,0x2014U,
3,0x2014U,0x20U,0x2014U,
3,0x2014U,0x308U,0x2014U,
4,0x2014U,0x308U,0x20U,0x2014U,
2,0x2014U,0x9U,
3,0x2014U,0x20U,0x80000009U,
3,0x2014U,0x308U,0x9U,
4,0x2014U,0x308U,0x20U,0x80000009U,
2,0x2014U,0x800000B4U,
3,0x2014U,0x20U,0x800000B4U,
3,0x2014U,0x308U,0x800000B4U,
4,0x2014U,0x308U,0x20U,0x800000B4U,
2,0x2014U,0xBU,
3,0x2014U,0x20U,0xBU,
3,0x2014U,0x308U,0xBU,
4,0x2014U,0x308U,0x20U,0xBU,
2,0x2014U,0x8000FFFCU,
3,0x2014U,0x20U,0x8000FFFCU,
3,0x2014U,0x308U,0x8000FFFCU,
4,0x2014U,0x308U,0x20U,0x8000FFFCU,
2,0x2014U,0x7DU,
3,0x2014U,0x20U,0x7DU,
3,0x2014U,0x308U,0x7DU,
4,0x2014U,0x308U,0x20U,0x7DU,
2,0x2014U,0xDU,
3,0x2014U,0x20U,0xDU,
3,0x2014U,0x308U,0xDU,
4,0x2014U,0x308U,0x20U,0xDU,
2,0x2014U,0x21U,
3,0x2014U,0x20U,0x21U,
3,0x2014U,0x308U,0x21U,
4,0x2014U,0x308U,0x20U,0x21U,
2,0x2014U,0xA0U,
3,0x2014U,0x20U,0x800000A0U,
3,0x2014U,0x308U,0xA0U,
4,0x2014U,0x308U,0x20U,0x800000A0U,
2,0x2014U,0x8000AC00U,
3,0x2014U,0x20U,0x8000AC00U,
3,0x2014U,0x308U,0x8000AC00U,
4,0x2014U,0x308U,0x20U,0x8000AC00U,
2,0x2014U,0x8000AC01U,
3,0x2014U,0x20U,0x8000AC01U,
3,0x2014U,0x308U,0x8000AC01U,
4,0x2014U,0x308U,0x20U,0x8000AC01U,
2,0x2014U,0x800005D0U,
3,0x2014U,0x20U,0x800005D0U,
3,0x2014U,0x308U,0x800005D0U,
4,0x2014U,0x308U,0x20U,0x800005D0U,
2,0x2014U,0x2DU,
3,0x2014U,0x20U,0x8000002DU,
3,0x2014U,0x308U,0x2DU,
4,0x2014U,0x308U,0x20U,0x8000002DU,
2,0x2014U,0x8000231AU,
3,0x2014U,0x20U,0x8000231AU,
3,0x2014U,0x308U,0x8000231AU,
4,0x2014U,0x308U,0x20U,0x8000231AU,
2,0x2014U,0x2024U,
3,0x2014U,0x20U,0x80002024U,
3,0x2014U,0x308U,0x2024U,
4,0x2014U,0x308U,0x20U,0x80002024U,
2,0x2014U,0x2CU,
3,0x2014U,0x20U,0x2CU,
3,0x2014U,0x308U,0x2CU,
4,0x2014U,0x308U,0x20U,0x2CU,
2,0x2014U,0x80001100U,
3,0x2014U,0x20U,0x80001100U,
3,0x2014U,0x308U,0x80001100U,
4,0x2014U,0x308U,0x20U,0x80001100U,
2,0x2014U,0x800011A8U,
3,0x2014U,0x20U,0x800011A8U,
3,0x2014U,0x308U,0x800011A8U,
4,0x2014U,0x308U,0x20U,0x800011A8U,
2,0x2014U,0x80001160U,
3,0x2014U,0x20U,0x80001160U,
3,0x2014U,0x308U,0x80001160U,
4,0x2014U,0x308U,0x20U,0x80001160U,
2,0x2014U,0xAU,
3,0x2014U,0x20U,0xAU,
3,0x2014U,0x308U,0xAU,
4,0x2014U,0x308U,0x20U,0xAU,
2,0x2014U,0x85U,
3,0x2014U,0x20U,0x85U,
3,0x2014U,0x308U,0x85U,
4,0x2014U,0x308U,0x20U,0x85U,
2,0x2014U,0x17D6U,
3,0x2014U,0x20U,0x800017D6U,
3,0x2014U,0x308U,0x17D6U,
4,0x2014U,0x308U,0x20U,0x800017D6U,
2,0x2014U,0x80000030U,
3,0x2014U,0x20U,0x80000030U,
3,0x2014U,0x308U,0x80000030U,
4,0x2014U,0x308U,0x20U,0x80000030U,
2,0x2014U,0x80002329U,
3,0x2014U,0x20U,0x80002329U,
3,0x2014U,0x308U,0x80002329U,
4,0x2014U,0x308U,0x20U,0x80002329U,
2,0x2014U,0x80000025U,
3,0x2014U,0x20U,0x80000025U,
3,0x2014U,0x308U,0x80000025U,
4,0x2014U,0x308U,0x20U,0x80000025U,
2,0x2014U,0x80000024U,
3,0x2014U,0x20U,0x80000024U,
3,0x2014U,0x308U,0x80000024U,
4,0x2014U,0x308U,0x20U,0x80000024U,
2,0x2014U,0x22U,
3,0x2014U,0x20U,0x80000022U,
3,0x2014U,0x308U,0x22U,
4,0x2014U,0x308U,0x20U,0x80000022U,
2,0x2014U,0x20U,
3,0x2014U,0x20U,0x20U,
3,0x2014U,0x308U,0x20U,
4,0x2014U,0x308U,0x20U,0x20U,
2,0x2014U,0x2FU,
3,0x2014U,0x20U,0x2FU,
3,0x2014U,0x308U,0x2FU,
4,0x2014U,0x308U,0x20U,0x2FU,
2,0x2014U,0x2060U,
3,0x2014U,0x20U,0x2060U,
3,0x2014U,0x308U,0x2060U,
4,0x2014U,0x308U,0x20U,0x2060U,
2,0x2014U,0x200BU,
3,0x2014U,0x20U,0x200BU,
3,0x2014U,0x308U,0x200BU,
4,0x2014U,0x308U,0x20U,0x200BU,
2,0x2014U,0x8001F1E6U,
3,0x2014U,0x20U,0x8001F1E6U,
3,0x2014U,0x308U,0x8001F1E6U,
4,0x2014U,0x308U,0x20U,0x8001F1E6U,
2,0x2014U,0x8000261DU,
3,0x2014U,0x20U,0x8000261DU,
3,0x2014U,0x308U,0x8000261DU,
4,0x2014U,0x308U,0x20U,0x8000261DU,
2,0x2014U,0x8001F3FBU,
3,0x2014U,0x20U,0x8001F3FBU,
3,0x2014U,0x308U,0x8001F3FBU,
4,0x2014U,0x308U,0x20U,0x8001F3FBU,
2,0x2014U,0x29U,
3,0x2014U,0x20U,0x29U,
3,0x2014U,0x308U,0x29U,
4,0x2014U,0x308U,0x20U,0x29U,
2,0x2014U,0x80000028U,
3,0x2014U,0x20U,0x80000028U,
3,0x2014U,0x308U,0x80000028U,
4,0x2014U,0x308U,0x20U,0x80000028U,
2,0x2014U,0x1U,
3,0x2014U,0x20U,0x80000001U,
3,0x2014U,0x308U,0x1U,
4,0x2014U,0x308U,0x20U,0x80000001U,
2,0x2014U,0x200DU,
3,0x2014U,0x20U,0x8000200DU,
3,0x2014U,0x308U,0x200DU,
4,0x2014U,0x308U,0x20U,0x8000200DU,
2,0x2014U,0x800000A7U,
3,0x2014U,0x20U,0x800000A7U,
3,0x2014U,0x308U,0x800000A7U,
4,0x2014U,0x308U,0x20U,0x800000A7U,
2,0x2014U,0x80050005U,
3,0x2014U,0x20U,0x80050005U,
3,0x2014U,0x308U,0x80050005U,
4,0x2014U,0x308U,0x20U,0x80050005U,
2,0x2014U,0x80000E01U,
3,0x2014U,0x20U,0x80000E01U,
3,0x2014U,0x308U,0x80000E01U,
4,0x2014U,0x308U,0x20U,0x80000E01U,
2,0x2014U,0x3041U,
3,0x2014U,0x20U,0x80003041U,
3,0x2014U,0x308U,0x3041U,
4,0x2014U,0x308U,0x20U,0x80003041U,
2,0x9U,0x80000023U,
3,0x9U,0x20U,0x80000023U,
3,0x9U,0x308U,0x80000023U,
4,0x9U,0x308U,0x20U,0x80000023U,
2,0x9U,0x80002014U,
3,0x9U,0x20U,0x80002014U,
3,0x9U,0x308U,0x80002014U,
4,0x9U,0x308U,0x20U,0x80002014U,
2,0x9U,0x9U,
3,0x9U,0x20U,0x80000009U,
3,0x9U,0x308U,0x9U,
4,0x9U,0x308U,0x20U,0x80000009U,
2,0x9U,0x800000B4U,
3,0x9U,0x20U,0x800000B4U,
3,0x9U,0x308U,0x800000B4U,
4,0x9U,0x308U,0x20U,0x800000B4U,
2,0x9U,0xBU,
3,0x9U,0x20U,0xBU,
3,0x9U,0x308U,0xBU,
4,0x9U,0x308U,0x20U,0xBU,
2,0x9U,0x8000FFFCU,
3,0x9U,0x20U,0x8000FFFCU,
3,0x9U,0x308U,0x8000FFFCU,
4,0x9U,0x308U,0x20U,0x8000FFFCU,
2,0x9U,0x7DU,
3,0x9U,0x20U,0x7DU,
3,0x9U,0x308U,0x7DU,
4,0x9U,0x308U,0x20U,0x7DU,
2,0x9U,0xDU,
3,0x9U,0x20U,0xDU,
3,0x9U,0x308U,0xDU,
4,0x9U,0x308U,0x20U,0xDU,
2,0x9U,0x21U,
3,0x9U,0x20U,0x21U,
3,0x9U,0x308U,0x21U,
4,0x9U,0x308U,0x20U,0x21U,
2,0x9U,0x800000A0U,
3,0x9U,0x20U,0x800000A0U,
3,0x9U,0x308U,0x800000A0U,
4,0x9U,0x308U,0x20U,0x800000A0U,
2,0x9U,0x8000AC00U,
3,0x9U,0x20U,0x8000AC00U,
3,0x9U,0x308U,0x8000AC00U,
4,0x9U,0x308U,0x20U,0x8000AC00U,
2,0x9U,0x8000AC01U,
3,0x9U,0x20U,0x8000AC01U,
3,0x9U,0x308U,0x8000AC01U,
4,0x9U,0x308U,0x20U,0x8000AC01U,
2,0x9U,0x800005D0U,
3,0x9U,0x20U,0x800005D0U,
3,0x9U,0x308U,0x800005D0U,
4,0x9U,0x308U,0x20U,0x800005D0U,
2,0x9U,0x2DU,
3,0x9U,0x20U,0x8000002DU,
3,0x9U,0x308U,0x2DU,
4,0x9U,0x308U,0x20U,0x8000002DU,
2,0x9U,0x8000231AU,
3,0x9U,0x20U,0x8000231AU,
3,0x9U,0x308U,0x8000231AU,
4,0x9U,0x308U,0x20U,0x8000231AU,
2,0x9U,0x2024U,
3,0x9U,0x20U,0x80002024U,
3,0x9U,0x308U,0x2024U,
4,0x9U,0x308U,0x20U,0x80002024U,
2,0x9U,0x2CU,
3,0x9U,0x20U,0x2CU,
3,0x9U,0x308U,0x2CU,
4,0x9U,0x308U,0x20U,0x2CU,
2,0x9U,0x80001100U,
3,0x9U,0x20U,0x80001100U,
3,0x9U,0x308U,0x80001100U,
4,0x9U,0x308U,0x20U,0x80001100U,
2,0x9U,0x800011A8U,
3,0x9U,0x20U,0x800011A8U,
3,0x9U,0x308U,0x800011A8U,
4,0x9U,0x308U,0x20U,0x800011A8U,
2,0x9U,0x80001160U,
3,0x9U,0x20U,0x80001160U,
3,0x9U,0x308U,0x80001160U,
4,0x9U,0x308U,0x20U,0x80001160U,
2,0x9U,0xAU,
3,0x9U,0x20U,0xAU,
3,0x9U,0x308U,0xAU,
4,0x9U,0x308U,0x20U,0xAU,
2,0x9U,0x85U,
3,0x9U,0x20U,0x85U,
3,0x9U,0x308U,0x85U,
4,0x9U,0x308U,0x20U,0x85U,
2,0x9U,0x17D6U,
3,0x9U,0x20U,0x800017D6U,
3,0x9U,0x308U,0x17D6U,
4,0x9U,0x308U,0x20U,0x800017D6U,
2,0x9U,0x80000030U,
3,0x9U,0x20U,0x80000030U,
3,0x9U,0x308U,0x80000030U,
4,0x9U,0x308U,0x20U,0x80000030U,
2,0x9U,0x80002329U,
3,0x9U,0x20U,0x80002329U,
3,0x9U,0x308U,0x80002329U,
4,0x9U,0x308U,0x20U,0x80002329U,
2,0x9U,0x80000025U,
3,0x9U,0x20U,0x80000025U,
3,0x9U,0x308U,0x80000025U,
4,0x9U,0x308U,0x20U,0x80000025U,
2,0x9U,0x80000024U,
3,0x9U,0x20U,0x80000024U,
3,0x9U,0x308U,0x80000024U,
4,0x9U,0x308U,0x20U,0x80000024U,
2,0x9U,0x22U,
3,0x9U,0x20U,0x80000022U,
3,0x9U,0x308U,0x22U,
4,0x9U,0x308U,0x20U,0x80000022U,
2,0x9U,0x20U,
3,0x9U,0x20U,0x20U,
3,0x9U,0x308U,0x20U,
4,0x9U,0x308U,0x20U,0x20U,
2,0x9U,0x2FU,
3,0x9U,0x20U,0x2FU,
3,0x9U,0x308U,0x2FU,
4,0x9U,0x308U,0x20U,0x2FU,
2,0x9U,0x2060U,
3,0x9U,0x20U,0x2060U,
3,0x9U,0x308U,0x2060U,
4,0x9U,0x308U,0x20U,0x2060U,
2,0x9U,0x200BU,
3,0x9U,0x20U,0x200BU,
3,0x9U,0x308U,0x200BU,
4,0x9U,0x308U,0x20U,0x200BU,
2,0x9U,0x8001F1E6U,
3,0x9U,0x20U,0x8001F1E6U,
3,0x9U,0x308U,0x8001F1E6U,
4,0x9U,0x308U,0x20U,0x8001F1E6U,
2,0x9U,0x8000261DU,
3,0x9U,0x20U,0x8000261DU,
3,0x9U,0x308U,0x8000261DU,
4,0x9U,0x308U,0x20U,0x8000261DU,
2,0x9U,0x8001F3FBU,
3,0x9U,0x20U,0x8001F3FBU,
3,0x9U,0x308U,0x8001F3FBU,
4,0x9U,0x308U,0x20U,0x8001F3FBU,
2,0x9U,0x29U,
3,0x9U,0x20U,0x29U,
3,0x9U,0x308U,0x29U,
4,0x9U,0x308U,0x20U,0x29U,
2,0x9U,0x80000028U,
3,0x9U,0x20U,0x80000028U,
3,0x9U,0x308U,0x80000028U,
4,0x9U,0x308U,0x20U,0x80000028U,
2,0x9U,0x1U,
3,0x9U,0x20U,0x80000001U,
3,0x9U,0x308U,0x1U,
4,0x9U,0x308U,0x20U,0x80000001U,
2,0x9U,0x200DU,
3,0x9U,0x20U,0x8000200DU,
3,0x9U,0x308U,0x200DU,
4,0x9U,0x308U,0x20U,0x8000200DU,
2,0x9U,0x800000A7U,
3,0x9U,0x20U,0x800000A7U,
3,0x9U,0x308U,0x800000A7U,
4,0x9U,0x308U,0x20U,0x800000A7U,
2,0x9U,0x80050005U,
3,0x9U,0x20U,0x80050005U,
3,0x9U,0x308U,0x80050005U,
4,0x9U,0x308U,0x20U,0x80050005U,
2,0x9U,0x80000E01U,
3,0x9U,0x20U,0x80000E01U,
3,0x9U,0x308U,0x80000E01U,
4,0x9U,0x308U,0x20U,0x80000E01U,
2,0x9U,0x3041U,
3,0x9U,0x20U,0x80003041U,
3,0x9U,0x308U,0x3041U,
4,0x9U,0x308U,0x20U,0x80003041U,
2,0xB4U,0x23U,
3,0xB4U,0x20U,0x80000023U,
3,0xB4U,0x308U,0x23U,
4,0xB4U,0x308U,0x20U,0x80000023U,
2,0xB4U,0x2014U,
3,0xB4U,0x20U,0x80002014U,
3,0xB4U,0x308U,0x2014U,
4,0xB4U,0x308U,0x20U,0x80002014U,
2,0xB4U,0x9U,
3,0xB4U,0x20U,0x80000009U,
3,0xB4U,0x308U,0x9U,
4,0xB4U,0x308U,0x20U,0x80000009U,
2,0xB4U,0xB4U,
3,0xB4U,0x20U,0x800000B4U,
3,0xB4U,0x308U,0xB4U,
4,0xB4U,0x308U,0x20U,0x800000B4U,
2,0xB4U,0xBU,
3,0xB4U,0x20U,0xBU,
3,0xB4U,0x308U,0xBU,
4,0xB4U,0x308U,0x20U,0xBU,
2,0xB4U,0x8000FFFCU,
3,0xB4U,0x20U,0x8000FFFCU,
3,0xB4U,0x308U,0x8000FFFCU,
4,0xB4U,0x308U,0x20U,0x8000FFFCU,
2,0xB4U,0x7DU,
3,0xB4U,0x20U,0x7DU,
3,0xB4U,0x308U,0x7DU,
4,0xB4U,0x308U,0x20U,0x7DU,
2,0xB4U,0xDU,
3,0xB4U,0x20U,0xDU,
3,0xB4U,0x308U,0xDU,
4,0xB4U,0x308U,0x20U,0xDU,
2,0xB4U,0x21U,
3,0xB4U,0x20U,0x21U,
3,0xB4U,0x308U,0x21U,
4,0xB4U,0x308U,0x20U,0x21U,
2,0xB4U,0xA0U,
3,0xB4U,0x20U,0x800000A0U,
3,0xB4U,0x308U,0xA0U,
4,0xB4U,0x308U,0x20U,0x800000A0U,
2,0xB4U,0xAC00U,
3,0xB4U,0x20U,0x8000AC00U,
3,0xB4U,0x308U,0xAC00U,
4,0xB4U,0x308U,0x20U,0x8000AC00U,
2,0xB4U,0xAC01U,
3,0xB4U,0x20U,0x8000AC01U,
3,0xB4U,0x308U,0xAC01U,
4,0xB4U,0x308U,0x20U,0x8000AC01U,
2,0xB4U,0x5D0U,
3,0xB4U,0x20U,0x800005D0U,
3,0xB4U,0x308U,0x5D0U,
4,0xB4U,0x308U,0x20U,0x800005D0U,
2,0xB4U,0x2DU,
3,0xB4U,0x20U,0x8000002DU,
3,0xB4U,0x308U,0x2DU,
4,0xB4U,0x308U,0x20U,0x8000002DU,
2,0xB4U,0x231AU,
3,0xB4U,0x20U,0x8000231AU,
3,0xB4U,0x308U,0x231AU,
4,0xB4U,0x308U,0x20U,0x8000231AU,
2,0xB4U,0x2024U,
3,0xB4U,0x20U,0x80002024U,
3,0xB4U,0x308U,0x2024U,
4,0xB4U,0x308U,0x20U,0x80002024U,
2,0xB4U,0x2CU,
3,0xB4U,0x20U,0x2CU,
3,0xB4U,0x308U,0x2CU,
4,0xB4U,0x308U,0x20U,0x2CU,
2,0xB4U,0x1100U,
3,0xB4U,0x20U,0x80001100U,
3,0xB4U,0x308U,0x1100U,
4,0xB4U,0x308U,0x20U,0x80001100U,
2,0xB4U,0x11A8U,
3,0xB4U,0x20U,0x800011A8U,
3,0xB4U,0x308U,0x11A8U,
4,0xB4U,0x308U,0x20U,0x800011A8U,
2,0xB4U,0x1160U,
3,0xB4U,0x20U,0x80001160U,
3,0xB4U,0x308U,0x1160U,
4,0xB4U,0x308U,0x20U,0x80001160U,
2,0xB4U,0xAU,
3,0xB4U,0x20U,0xAU,
3,0xB4U,0x308U,0xAU,
4,0xB4U,0x308U,0x20U,0xAU,
2,0xB4U,0x85U,
3,0xB4U,0x20U,0x85U,
3,0xB4U,0x308U,0x85U,
4,0xB4U,0x308U,0x20U,0x85U,
2,0xB4U,0x17D6U,
3,0xB4U,0x20U,0x800017D6U,
3,0xB4U,0x308U,0x17D6U,
4,0xB4U,0x308U,0x20U,0x800017D6U,
2,0xB4U,0x30U,
3,0xB4U,0x20U,0x80000030U,
3,0xB4U,0x308U,0x30U,
4,0xB4U,0x308U,0x20U,0x80000030U,
2,0xB4U,0x2329U,
3,0xB4U,0x20U,0x80002329U,
3,0xB4U,0x308U,0x2329U,
4,0xB4U,0x308U,0x20U,0x80002329U,
2,0xB4U,0x25U,
3,0xB4U,0x20U,0x80000025U,
3,0xB4U,0x308U,0x25U,
4,0xB4U,0x308U,0x20U,0x80000025U,
2,0xB4U,0x24U,
3,0xB4U,0x20U,0x80000024U,
3,0xB4U,0x308U,0x24U,
4,0xB4U,0x308U,0x20U,0x80000024U,
2,0xB4U,0x22U,
3,0xB4U,0x20U,0x80000022U,
3,0xB4U,0x308U,0x22U,
4,0xB4U,0x308U,0x20U,0x80000022U,
2,0xB4U,0x20U,
3,0xB4U,0x20U,0x20U,
3,0xB4U,0x308U,0x20U,
4,0xB4U,0x308U,0x20U,0x20U,
2,0xB4U,0x2FU,
3,0xB4U,0x20U,0x2FU,
3,0xB4U,0x308U,0x2FU,
4,0xB4U,0x308U,0x20U,0x2FU,
2,0xB4U,0x2060U,
3,0xB4U,0x20U,0x2060U,
3,0xB4U,0x308U,0x2060U,
4,0xB4U,0x308U,0x20U,0x2060U,
2,0xB4U,0x200BU,
3,0xB4U,0x20U,0x200BU,
3,0xB4U,0x308U,0x200BU,
4,0xB4U,0x308U,0x20U,0x200BU,
2,0xB4U,0x1F1E6U,
3,0xB4U,0x20U,0x8001F1E6U,
3,0xB4U,0x308U,0x1F1E6U,
4,0xB4U,0x308U,0x20U,0x8001F1E6U,
2,0xB4U,0x261DU,
3,0xB4U,0x20U,0x8000261DU,
3,0xB4U,0x308U,0x261DU,
4,0xB4U,0x308U,0x20U,0x8000261DU,
2,0xB4U,0x1F3FBU,
3,0xB4U,0x20U,0x8001F3FBU,
3,0xB4U,0x308U,0x1F3FBU,
4,0xB4U,0x308U,0x20U,0x8001F3FBU,
2,0xB4U,0x29U,
3,0xB4U,0x20U,0x29U,
3,0xB4U,0x308U,0x29U,
4,0xB4U,0x308U,0x20U,0x29U,
2,0xB4U,0x28U,
3,0xB4U,0x20U,0x80000028U,
3,0xB4U,0x308U,0x28U,
4,0xB4U,0x308U,0x20U,0x80000028U,
2,0xB4U,0x1U,
3,0xB4U,0x20U,0x80000001U,
3,0xB4U,0x308U,0x1U,
4,0xB4U,0x308U,0x20U,0x80000001U,
2,0xB4U,0x200DU,
3,0xB4U,0x20U,0x8000200DU,
3,0xB4U,0x308U,0x200DU,
4,0xB4U,0x308U,0x20U,0x8000200DU,
2,0xB4U,0xA7U,
3,0xB4U,0x20U,0x800000A7U,
3,0xB4U,0x308U,0xA7U,
4,0xB4U,0x308U,0x20U,0x800000A7U,
2,0xB4U,0x50005U,
3,0xB4U,0x20U,0x80050005U,
3,0xB4U,0x308U,0x50005U,
4,0xB4U,0x308U,0x20U,0x80050005U,
2,0xB4U,0xE01U,
3,0xB4U,0x20U,0x80000E01U,
3,0xB4U,0x308U,0xE01U,
4,0xB4U,0x308U,0x20U,0x80000E01U,
2,0xB4U,0x3041U,
3,0xB4U,0x20U,0x80003041U,
3,0xB4U,0x308U,0x3041U,
4,0xB4U,0x308U,0x20U,0x80003041U,
2,0xBU,0x80000023U,
3,0xBU,0x80000020U,0x80000023U,
3,0xBU,0x80000308U,0x23U,
4,0xBU,0x80000308U,0x20U,0x80000023U,
2,0xBU,0x80002014U,
3,0xBU,0x80000020U,0x80002014U,
3,0xBU,0x80000308U,0x80002014U,
4,0xBU,0x80000308U,0x20U,0x80002014U,
2,0xBU,0x80000009U,
3,0xBU,0x80000020U,0x80000009U,
3,0xBU,0x80000308U,0x9U,
4,0xBU,0x80000308U,0x20U,0x80000009U,
2,0xBU,0x800000B4U,
3,0xBU,0x80000020U,0x800000B4U,
3,0xBU,0x80000308U,0x800000B4U,
4,0xBU,0x80000308U,0x20U,0x800000B4U,
2,0xBU,0x8000000BU,
3,0xBU,0x80000020U,0xBU,
3,0xBU,0x80000308U,0xBU,
4,0xBU,0x80000308U,0x20U,0xBU,
2,0xBU,0x8000FFFCU,
3,0xBU,0x80000020U,0x8000FFFCU,
3,0xBU,0x80000308U,0x8000FFFCU,
4,0xBU,0x80000308U,0x20U,0x8000FFFCU,
2,0xBU,0x8000007DU,
3,0xBU,0x80000020U,0x7DU,
3,0xBU,0x80000308U,0x7DU,
4,0xBU,0x80000308U,0x20U,0x7DU,
2,0xBU,0x8000000DU,
3,0xBU,0x80000020U,0xDU,
3,0xBU,0x80000308U,0xDU,
4,0xBU,0x80000308U,0x20U,0xDU,
2,0xBU,0x80000021U,
3,0xBU,0x80000020U,0x21U,
3,0xBU,0x80000308U,0x21U,
4,0xBU,0x80000308U,0x20U,0x21U,
2,0xBU,0x800000A0U,
3,0xBU,0x80000020U,0x800000A0U,
3,0xBU,0x80000308U,0xA0U,
4,0xBU,0x80000308U,0x20U,0x800000A0U,
2,0xBU,0x8000AC00U,
3,0xBU,0x80000020U,0x8000AC00U,
3,0xBU,0x80000308U,0x8000AC00U,
4,0xBU,0x80000308U,0x20U,0x8000AC00U,
2,0xBU,0x8000AC01U,
3,0xBU,0x80000020U,0x8000AC01U,
3,0xBU,0x80000308U,0x8000AC01U,
4,0xBU,0x80000308U,0x20U,0x8000AC01U,
2,0xBU,0x800005D0U,
3,0xBU,0x80000020U,0x800005D0U,
3,0xBU,0x80000308U,0x5D0U,
4,0xBU,0x80000308U,0x20U,0x800005D0U,
2,0xBU,0x8000002DU,
3,0xBU,0x80000020U,0x8000002DU,
3,0xBU,0x80000308U,0x2DU,
4,0xBU,0x80000308U,0x20U,0x8000002DU,
2,0xBU,0x8000231AU,
3,0xBU,0x80000020U,0x8000231AU,
3,0xBU,0x80000308U,0x8000231AU,
4,0xBU,0x80000308U,0x20U,0x8000231AU,
2,0xBU,0x80002024U,
3,0xBU,0x80000020U,0x80002024U,
3,0xBU,0x80000308U,0x2024U,
4,0xBU,0x80000308U,0x20U,0x80002024U,
2,0xBU,0x8000002CU,
3,0xBU,0x80000020U,0x2CU,
3,0xBU,0x80000308U,0x2CU,
4,0xBU,0x80000308U,0x20U,0x2CU,
2,0xBU,0x80001100U,
3,0xBU,0x80000020U,0x80001100U,
3,0xBU,0x80000308U,0x80001100U,
4,0xBU,0x80000308U,0x20U,0x80001100U,
2,0xBU,0x800011A8U,
3,0xBU,0x80000020U,0x800011A8U,
3,0xBU,0x80000308U,0x800011A8U,
4,0xBU,0x80000308U,0x20U,0x800011A8U,
2,0xBU,0x80001160U,
3,0xBU,0x80000020U,0x80001160U,
3,0xBU,0x80000308U,0x80001160U,
4,0xBU,0x80000308U,0x20U,0x80001160U,
2,0xBU,0x8000000AU,
3,0xBU,0x80000020U,0xAU,
3,0xBU,0x80000308U,0xAU,
4,0xBU,0x80000308U,0x20U,0xAU,
2,0xBU,0x80000085U,
3,0xBU,0x80000020U,0x85U,
3,0xBU,0x80000308U,0x85U,
4,0xBU,0x80000308U,0x20U,0x85U,
2,0xBU,0x800017D6U,
3,0xBU,0x80000020U,0x800017D6U,
3,0xBU,0x80000308U,0x17D6U,
4,0xBU,0x80000308U,0x20U,0x800017D6U,
2,0xBU,0x80000030U,
3,0xBU,0x80000020U,0x80000030U,
3,0xBU,0x80000308U,0x30U,
4,0xBU,0x80000308U,0x20U,0x80000030U,
2,0xBU,0x80002329U,
3,0xBU,0x80000020U,0x80002329U,
3,0xBU,0x80000308U,0x80002329U,
4,0xBU,0x80000308U,0x20U,0x80002329U,
2,0xBU,0x80000025U,
3,0xBU,0x80000020U,0x80000025U,
3,0xBU,0x80000308U,0x25U,
4,0xBU,0x80000308U,0x20U,0x80000025U,
2,0xBU,0x80000024U,
3,0xBU,0x80000020U,0x80000024U,
3,0xBU,0x80000308U,0x24U,
4,0xBU,0x80000308U,0x20U,0x80000024U,
2,0xBU,0x80000022U,
3,0xBU,0x80000020U,0x80000022U,
3,0xBU,0x80000308U,0x22U,
4,0xBU,0x80000308U,0x20U,0x80000022U,
2,0xBU,0x80000020U,
3,0xBU,0x80000020U,0x20U,
3,0xBU,0x80000308U,0x20U,
4,0xBU,0x80000308U,0x20U,0x20U,
2,0xBU,0x8000002FU,
3,0xBU,0x80000020U,0x2FU,
3,0xBU,0x80000308U,0x2FU,
4,0xBU,0x80000308U,0x20U,0x2FU,
2,0xBU,0x80002060U,
3,0xBU,0x80000020U,0x2060U,
3,0xBU,0x80000308U,0x2060U,
4,0xBU,0x80000308U,0x20U,0x2060U,
2,0xBU,0x8000200BU,
3,0xBU,0x80000020U,0x200BU,
3,0xBU,0x80000308U,0x200BU,
4,0xBU,0x80000308U,0x20U,0x200BU,
2,0xBU,0x8001F1E6U,
3,0xBU,0x80000020U,0x8001F1E6U,
3,0xBU,0x80000308U,0x8001F1E6U,
4,0xBU,0x80000308U,0x20U,0x8001F1E6U,
2,0xBU,0x8000261DU,
3,0xBU,0x80000020U,0x8000261DU,
3,0xBU,0x80000308U,0x8000261DU,
4,0xBU,0x80000308U,0x20U,0x8000261DU,
2,0xBU,0x8001F3FBU,
3,0xBU,0x80000020U,0x8001F3FBU,
3,0xBU,0x80000308U,0x8001F3FBU,
4,0xBU,0x80000308U,0x20U,0x8001F3FBU,
2,0xBU,0x80000029U,
3,0xBU,0x80000020U,0x29U,
3,0xBU,0x80000308U,0x29U,
4,0xBU,0x80000308U,0x20U,0x29U,
2,0xBU,0x80000028U,
3,0xBU,0x80000020U,0x80000028U,
3,0xBU,0x80000308U,0x28U,
4,0xBU,0x80000308U,0x20U,0x80000028U,
2,0xBU,0x80000001U,
3,0xBU,0x80000020U,0x80000001U,
3,0xBU,0x80000308U,0x1U,
4,0xBU,0x80000308U,0x20U,0x80000001U,
2,0xBU,0x8000200DU,
3,0xBU,0x80000020U,0x8000200DU,
3,0xBU,0x80000308U,0x200DU,
4,0xBU,0x80000308U,0x20U,0x8000200DU,
2,0xBU,0x800000A7U,
3,0xBU,0x80000020U,0x800000A7U,
3,0xBU,0x80000308U,0xA7U,
4,0xBU,0x80000308U,0x20U,0x800000A7U,
2,0xBU,0x80050005U,
3,0xBU,0x80000020U,0x80050005U,
3,0xBU,0x80000308U,0x50005U,
4,0xBU,0x80000308U,0x20U,0x80050005U,
2,0xBU,0x80000E01U,
3,0xBU,0x80000020U,0x80000E01U,
3,0xBU,0x80000308U,0xE01U,
4,0xBU,0x80000308U,0x20U,0x80000E01U,
2,0xBU,0x80003041U,
3,0xBU,0x80000020U,0x80003041U,
3,0xBU,0x80000308U,0x3041U,
4,0xBU,0x80000308U,0x20U,0x80003041U,
2,0xFFFCU,0x80000023U,
3,0xFFFCU,0x20U,0x80000023U,
3,0xFFFCU,0x308U,0x80000023U,
4,0xFFFCU,0x308U,0x20U,0x80000023U,
2,0xFFFCU,0x80002014U,
3,0xFFFCU,0x20U,0x80002014U,
3,0xFFFCU,0x308U,0x80002014U,
4,0xFFFCU,0x308U,0x20U,0x80002014U,
2,0xFFFCU,0x80000009U,
3,0xFFFCU,0x20U,0x80000009U,
3,0xFFFCU,0x308U,0x80000009U,
4,0xFFFCU,0x308U,0x20U,0x80000009U,
2,0xFFFCU,0x800000B4U,
3,0xFFFCU,0x20U,0x800000B4U,
3,0xFFFCU,0x308U,0x800000B4U,
4,0xFFFCU,0x308U,0x20U,0x800000B4U,
2,0xFFFCU,0xBU,
3,0xFFFCU,0x20U,0xBU,
3,0xFFFCU,0x308U,0xBU,
4,0xFFFCU,0x308U,0x20U,0xBU,
2,0xFFFCU,0x8000FFFCU,
3,0xFFFCU,0x20U,0x8000FFFCU,
3,0xFFFCU,0x308U,0x8000FFFCU,
4,0xFFFCU,0x308U,0x20U,0x8000FFFCU,
2,0xFFFCU,0x7DU,
3,0xFFFCU,0x20U,0x7DU,
3,0xFFFCU,0x308U,0x7DU,
4,0xFFFCU,0x308U,0x20U,0x7DU,
2,0xFFFCU,0xDU,
3,0xFFFCU,0x20U,0xDU,
3,0xFFFCU,0x308U,0xDU,
4,0xFFFCU,0x308U,0x20U,0xDU,
2,0xFFFCU,0x21U,
3,0xFFFCU,0x20U,0x21U,
3,0xFFFCU,0x308U,0x21U,
4,0xFFFCU,0x308U,0x20U,0x21U,
2,0xFFFCU,0xA0U,
3,0xFFFCU,0x20U,0x800000A0U,
3,0xFFFCU,0x308U,0xA0U,
4,0xFFFCU,0x308U,0x20U,0x800000A0U,
2,0xFFFCU,0x8000AC00U,
3,0xFFFCU,0x20U,0x8000AC00U,
3,0xFFFCU,0x308U,0x8000AC00U,
4,0xFFFCU,0x308U,0x20U,0x8000AC00U,
2,0xFFFCU,0x8000AC01U,
3,0xFFFCU,0x20U,0x8000AC01U,
3,0xFFFCU,0x308U,0x8000AC01U,
4,0xFFFCU,0x308U,0x20U,0x8000AC01U,
2,0xFFFCU,0x800005D0U,
3,0xFFFCU,0x20U,0x800005D0U,
3,0xFFFCU,0x308U,0x800005D0U,
4,0xFFFCU,0x308U,0x20U,0x800005D0U,
2,0xFFFCU,0x8000002DU,
3,0xFFFCU,0x20U,0x8000002DU,
3,0xFFFCU,0x308U,0x8000002DU,
4,0xFFFCU,0x308U,0x20U,0x8000002DU,
2,0xFFFCU,0x8000231AU,
3,0xFFFCU,0x20U,0x8000231AU,
3,0xFFFCU,0x308U,0x8000231AU,
4,0xFFFCU,0x308U,0x20U,0x8000231AU,
2,0xFFFCU,0x80002024U,
3,0xFFFCU,0x20U,0x80002024U,
3,0xFFFCU,0x308U,0x80002024U,
4,0xFFFCU,0x308U,0x20U,0x80002024U,
2,0xFFFCU,0x2CU,
3,0xFFFCU,0x20U,0x2CU,
3,0xFFFCU,0x308U,0x2CU,
4,0xFFFCU,0x308U,0x20U,0x2CU,
2,0xFFFCU,0x80001100U,
3,0xFFFCU,0x20U,0x80001100U,
3,0xFFFCU,0x308U,0x80001100U,
4,0xFFFCU,0x308U,0x20U,0x80001100U,
2,0xFFFCU,0x800011A8U,
3,0xFFFCU,0x20U,0x800011A8U,
3,0xFFFCU,0x308U,0x800011A8U,
4,0xFFFCU,0x308U,0x20U,0x800011A8U,
2,0xFFFCU,0x80001160U,
3,0xFFFCU,0x20U,0x80001160U,
3,0xFFFCU,0x308U,0x80001160U,
4,0xFFFCU,0x308U,0x20U,0x80001160U,
2,0xFFFCU,0xAU,
3,0xFFFCU,0x20U,0xAU,
3,0xFFFCU,0x308U,0xAU,
4,0xFFFCU,0x308U,0x20U,0xAU,
2,0xFFFCU,0x85U,
3,0xFFFCU,0x20U,0x85U,
3,0xFFFCU,0x308U,0x85U,
4,0xFFFCU,0x308U,0x20U,0x85U,
2,0xFFFCU,0x800017D6U,
3,0xFFFCU,0x20U,0x800017D6U,
3,0xFFFCU,0x308U,0x800017D6U,
4,0xFFFCU,0x308U,0x20U,0x800017D6U,
2,0xFFFCU,0x80000030U,
3,0xFFFCU,0x20U,0x80000030U,
3,0xFFFCU,0x308U,0x80000030U,
4,0xFFFCU,0x308U,0x20U,0x80000030U,
2,0xFFFCU,0x80002329U,
3,0xFFFCU,0x20U,0x80002329U,
3,0xFFFCU,0x308U,0x80002329U,
4,0xFFFCU,0x308U,0x20U,0x80002329U,
2,0xFFFCU,0x80000025U,
3,0xFFFCU,0x20U,0x80000025U,
3,0xFFFCU,0x308U,0x80000025U,
4,0xFFFCU,0x308U,0x20U,0x80000025U,
2,0xFFFCU,0x80000024U,
3,0xFFFCU,0x20U,0x80000024U,
3,0xFFFCU,0x308U,0x80000024U,
4,0xFFFCU,0x308U,0x20U,0x80000024U,
2,0xFFFCU,0x22U,
3,0xFFFCU,0x20U,0x80000022U,
3,0xFFFCU,0x308U,0x22U,
4,0xFFFCU,0x308U,0x20U,0x80000022U,
2,0xFFFCU,0x20U,
3,0xFFFCU,0x20U,0x20U,
3,0xFFFCU,0x308U,0x20U,
4,0xFFFCU,0x308U,0x20U,0x20U,
2,0xFFFCU,0x2FU,
3,0xFFFCU,0x20U,0x2FU,
3,0xFFFCU,0x308U,0x2FU,
4,0xFFFCU,0x308U,0x20U,0x2FU,
2,0xFFFCU,0x2060U,
3,0xFFFCU,0x20U,0x2060U,
3,0xFFFCU,0x308U,0x2060U,
4,0xFFFCU,0x308U,0x20U,0x2060U,
2,0xFFFCU,0x200BU,
3,0xFFFCU,0x20U,0x200BU,
3,0xFFFCU,0x308U,0x200BU,
4,0xFFFCU,0x308U,0x20U,0x200BU,
2,0xFFFCU,0x8001F1E6U,
3,0xFFFCU,0x20U,0x8001F1E6U,
3,0xFFFCU,0x308U,0x8001F1E6U,
4,0xFFFCU,0x308U,0x20U,0x8001F1E6U,
2,0xFFFCU,0x8000261DU,
3,0xFFFCU,0x20U,0x8000261DU,
3,0xFFFCU,0x308U,0x8000261DU,
4,0xFFFCU,0x308U,0x20U,0x8000261DU,
2,0xFFFCU,0x8001F3FBU,
3,0xFFFCU,0x20U,0x8001F3FBU,
3,0xFFFCU,0x308U,0x8001F3FBU,
4,0xFFFCU,0x308U,0x20U,0x8001F3FBU,
2,0xFFFCU,0x29U,
3,0xFFFCU,0x20U,0x29U,
3,0xFFFCU,0x308U,0x29U,
4,0xFFFCU,0x308U,0x20U,0x29U,
2,0xFFFCU,0x80000028U,
3,0xFFFCU,0x20U,0x80000028U,
3,0xFFFCU,0x308U,0x80000028U,
4,0xFFFCU,0x308U,0x20U,0x80000028U,
2,0xFFFCU,0x1U,
3,0xFFFCU,0x20U,0x80000001U,
3,0xFFFCU,0x308U,0x1U,
4,0xFFFCU,0x308U,0x20U,0x80000001U,
2,0xFFFCU,0x200DU,
3,0xFFFCU,0x20U,0x8000200DU,
3,0xFFFCU,0x308U,0x200DU,
4,0xFFFCU,0x308U,0x20U,0x8000200DU,
2,0xFFFCU,0x800000A7U,
3,0xFFFCU,0x20U,0x800000A7U,
3,0xFFFCU,0x308U,0x800000A7U,
4,0xFFFCU,0x308U,0x20U,0x800000A7U,
2,0xFFFCU,0x80050005U,
3,0xFFFCU,0x20U,0x80050005U,
3,0xFFFCU,0x308U,0x80050005U,
4,0xFFFCU,0x308U,0x20U,0x80050005U,
2,0xFFFCU,0x80000E01U,
3,0xFFFCU,0x20U,0x80000E01U,
3,0xFFFCU,0x308U,0x80000E01U,
4,0xFFFCU,0x308U,0x20U,0x80000E01U,
2,0xFFFCU,0x80003041U,
3,0xFFFCU,0x20U,0x80003041U,
3,0xFFFCU,0x308U,0x80003041U,
4,0xFFFCU,0x308U,0x20U,0x80003041U,
2,0x7DU,0x80000023U,
3,0x7DU,0x20U,0x80000023U,
3,0x7DU,0x308U,0x80000023U,
4,0x7DU,0x308U,0x20U,0x80000023U,
2,0x7DU,0x80002014U,
3,0x7DU,0x20U,0x80002014U,
3,0x7DU,0x308U,0x80002014U,
4,0x7DU,0x308U,0x20U,0x80002014U,
2,0x7DU,0x9U,
3,0x7DU,0x20U,0x80000009U,
3,0x7DU,0x308U,0x9U,
4,0x7DU,0x308U,0x20U,0x80000009U,
2,0x7DU,0x800000B4U,
3,0x7DU,0x20U,0x800000B4U,
3,0x7DU,0x308U,0x800000B4U,
4,0x7DU,0x308U,0x20U,0x800000B4U,
2,0x7DU,0xBU,
3,0x7DU,0x20U,0xBU,
3,0x7DU,0x308U,0xBU,
4,0x7DU,0x308U,0x20U,0xBU,
2,0x7DU,0x8000FFFCU,
3,0x7DU,0x20U,0x8000FFFCU,
3,0x7DU,0x308U,0x8000FFFCU,
4,0x7DU,0x308U,0x20U,0x8000FFFCU,
2,0x7DU,0x7DU,
3,0x7DU,0x20U,0x7DU,
3,0x7DU,0x308U,0x7DU,
4,0x7DU,0x308U,0x20U,0x7DU,
2,0x7DU,0xDU,
3,0x7DU,0x20U,0xDU,
3,0x7DU,0x308U,0xDU,
4,0x7DU,0x308U,0x20U,0xDU,
2,0x7DU,0x21U,
3,0x7DU,0x20U,0x21U,
3,0x7DU,0x308U,0x21U,
4,0x7DU,0x308U,0x20U,0x21U,
2,0x7DU,0xA0U,
3,0x7DU,0x20U,0x800000A0U,
3,0x7DU,0x308U,0xA0U,
4,0x7DU,0x308U,0x20U,0x800000A0U,
2,0x7DU,0x8000AC00U,
3,0x7DU,0x20U,0x8000AC00U,
3,0x7DU,0x308U,0x8000AC00U,
4,0x7DU,0x308U,0x20U,0x8000AC00U,
2,0x7DU,0x8000AC01U,
3,0x7DU,0x20U,0x8000AC01U,
3,0x7DU,0x308U,0x8000AC01U,
4,0x7DU,0x308U,0x20U,0x8000AC01U,
2,0x7DU,0x800005D0U,
3,0x7DU,0x20U,0x800005D0U,
3,0x7DU,0x308U,0x800005D0U,
4,0x7DU,0x308U,0x20U,0x800005D0U,
2,0x7DU,0x2DU,
3,0x7DU,0x20U,0x8000002DU,
3,0x7DU,0x308U,0x2DU,
4,0x7DU,0x308U,0x20U,0x8000002DU,
2,0x7DU,0x8000231AU,
3,0x7DU,0x20U,0x8000231AU,
3,0x7DU,0x308U,0x8000231AU,
4,0x7DU,0x308U,0x20U,0x8000231AU,
2,0x7DU,0x2024U,
3,0x7DU,0x20U,0x80002024U,
3,0x7DU,0x308U,0x2024U,
4,0x7DU,0x308U,0x20U,0x80002024U,
2,0x7DU,0x2CU,
3,0x7DU,0x20U,0x2CU,
3,0x7DU,0x308U,0x2CU,
4,0x7DU,0x308U,0x20U,0x2CU,
2,0x7DU,0x80001100U,
3,0x7DU,0x20U,0x80001100U,
3,0x7DU,0x308U,0x80001100U,
4,0x7DU,0x308U,0x20U,0x80001100U,
2,0x7DU,0x800011A8U,
3,0x7DU,0x20U,0x800011A8U,
3,0x7DU,0x308U,0x800011A8U,
4,0x7DU,0x308U,0x20U,0x800011A8U,
2,0x7DU,0x80001160U,
3,0x7DU,0x20U,0x80001160U,
3,0x7DU,0x308U,0x80001160U,
4,0x7DU,0x308U,0x20U,0x80001160U,
2,0x7DU,0xAU,
3,0x7DU,0x20U,0xAU,
3,0x7DU,0x308U,0xAU,
4,0x7DU,0x308U,0x20U,0xAU,
2,0x7DU,0x85U,
3,0x7DU,0x20U,0x85U,
3,0x7DU,0x308U,0x85U,
4,0x7DU,0x308U,0x20U,0x85U,
2,0x7DU,0x17D6U,
3,0x7DU,0x20U,0x17D6U,
3,0x7DU,0x308U,0x17D6U,
4,0x7DU,0x308U,0x20U,0x17D6U,
2,0x7DU,0x80000030U,
3,0x7DU,0x20U,0x80000030U,
3,0x7DU,0x308U,0x80000030U,
4,0x7DU,0x308U,0x20U,0x80000030U,
2,0x7DU,0x80002329U,
3,0x7DU,0x20U,0x80002329U,
3,0x7DU,0x308U,0x80002329U,
4,0x7DU,0x308U,0x20U,0x80002329U,
2,0x7DU,0x80000025U,
3,0x7DU,0x20U,0x80000025U,
3,0x7DU,0x308U,0x80000025U,
4,0x7DU,0x308U,0x20U,0x80000025U,
2,0x7DU,0x80000024U,
3,0x7DU,0x20U,0x80000024U,
3,0x7DU,0x308U,0x80000024U,
4,0x7DU,0x308U,0x20U,0x80000024U,
2,0x7DU,0x22U,
3,0x7DU,0x20U,0x80000022U,
3,0x7DU,0x308U,0x22U,
4,0x7DU,0x308U,0x20U,0x80000022U,
2,0x7DU,0x20U,
3,0x7DU,0x20U,0x20U,
3,0x7DU,0x308U,0x20U,
4,0x7DU,0x308U,0x20U,0x20U,
2,0x7DU,0x2FU,
3,0x7DU,0x20U,0x2FU,
3,0x7DU,0x308U,0x2FU,
4,0x7DU,0x308U,0x20U,0x2FU,
2,0x7DU,0x2060U,
3,0x7DU,0x20U,0x2060U,
3,0x7DU,0x308U,0x2060U,
4,0x7DU,0x308U,0x20U,0x2060U,
2,0x7DU,0x200BU,
3,0x7DU,0x20U,0x200BU,
3,0x7DU,0x308U,0x200BU,
4,0x7DU,0x308U,0x20U,0x200BU,
2,0x7DU,0x8001F1E6U,
3,0x7DU,0x20U,0x8001F1E6U,
3,0x7DU,0x308U,0x8001F1E6U,
4,0x7DU,0x308U,0x20U,0x8001F1E6U,
2,0x7DU,0x8000261DU,
3,0x7DU,0x20U,0x8000261DU,
3,0x7DU,0x308U,0x8000261DU,
4,0x7DU,0x308U,0x20U,0x8000261DU,
2,0x7DU,0x8001F3FBU,
3,0x7DU,0x20U,0x8001F3FBU,
3,0x7DU,0x308U,0x8001F3FBU,
4,0x7DU,0x308U,0x20U,0x8001F3FBU,
2,0x7DU,0x29U,
3,0x7DU,0x20U,0x29U,
3,0x7DU,0x308U,0x29U,
4,0x7DU,0x308U,0x20U,0x29U,
2,0x7DU,0x80000028U,
3,0x7DU,0x20U,0x80000028U,
3,0x7DU,0x308U,0x80000028U,
4,0x7DU,0x308U,0x20U,0x80000028U,
2,0x7DU,0x1U,
3,0x7DU,0x20U,0x80000001U,
3,0x7DU,0x308U,0x1U,
4,0x7DU,0x308U,0x20U,0x80000001U,
2,0x7DU,0x200DU,
3,0x7DU,0x20U,0x8000200DU,
3,0x7DU,0x308U,0x200DU,
4,0x7DU,0x308U,0x20U,0x8000200DU,
2,0x7DU,0x800000A7U,
3,0x7DU,0x20U,0x800000A7U,
3,0x7DU,0x308U,0x800000A7U,
4,0x7DU,0x308U,0x20U,0x800000A7U,
2,0x7DU,0x80050005U,
3,0x7DU,0x20U,0x80050005U,
3,0x7DU,0x308U,0x80050005U,
4,0x7DU,0x308U,0x20U,0x80050005U,
2,0x7DU,0x80000E01U,
3,0x7DU,0x20U,0x80000E01U,
3,0x7DU,0x308U,0x80000E01U,
4,0x7DU,0x308U,0x20U,0x80000E01U,
2,0x7DU,0x3041U,
3,0x7DU,0x20U,0x3041U,
3,0x7DU,0x308U,0x3041U,
4,0x7DU,0x308U,0x20U,0x3041U,
2,0xDU,0x80000023U,
3,0xDU,0x80000020U,0x80000023U,
3,0xDU,0x80000308U,0x23U,
4,0xDU,0x80000308U,0x20U,0x80000023U,
2,0xDU,0x80002014U,
3,0xDU,0x80000020U,0x80002014U,
3,0xDU,0x80000308U,0x80002014U,
4,0xDU,0x80000308U,0x20U,0x80002014U,
2,0xDU,0x80000009U,
3,0xDU,0x80000020U,0x80000009U,
3,0xDU,0x80000308U,0x9U,
4,0xDU,0x80000308U,0x20U,0x80000009U,
2,0xDU,0x800000B4U,
3,0xDU,0x80000020U,0x800000B4U,
3,0xDU,0x80000308U,0x800000B4U,
4,0xDU,0x80000308U,0x20U,0x800000B4U,
2,0xDU,0x8000000BU,
3,0xDU,0x80000020U,0xBU,
3,0xDU,0x80000308U,0xBU,
4,0xDU,0x80000308U,0x20U,0xBU,
2,0xDU,0x8000FFFCU,
3,0xDU,0x80000020U,0x8000FFFCU,
3,0xDU,0x80000308U,0x8000FFFCU,
4,0xDU,0x80000308U,0x20U,0x8000FFFCU,
2,0xDU,0x8000007DU,
3,0xDU,0x80000020U,0x7DU,
3,0xDU,0x80000308U,0x7DU,
4,0xDU,0x80000308U,0x20U,0x7DU,
2,0xDU,0x8000000DU,
3,0xDU,0x80000020U,0xDU,
3,0xDU,0x80000308U,0xDU,
4,0xDU,0x80000308U,0x20U,0xDU,
2,0xDU,0x80000021U,
3,0xDU,0x80000020U,0x21U,
3,0xDU,0x80000308U,0x21U,
4,0xDU,0x80000308U,0x20U,0x21U,
2,0xDU,0x800000A0U,
3,0xDU,0x80000020U,0x800000A0U,
3,0xDU,0x80000308U,0xA0U,
4,0xDU,0x80000308U,0x20U,0x800000A0U,
2,0xDU,0x8000AC00U,
3,0xDU,0x80000020U,0x8000AC00U,
3,0xDU,0x80000308U,0x8000AC00U,
4,0xDU,0x80000308U,0x20U,0x8000AC00U,
2,0xDU,0x8000AC01U,
3,0xDU,0x80000020U,0x8000AC01U,
3,0xDU,0x80000308U,0x8000AC01U,
4,0xDU,0x80000308U,0x20U,0x8000AC01U,
2,0xDU,0x800005D0U,
3,0xDU,0x80000020U,0x800005D0U,
3,0xDU,0x80000308U,0x5D0U,
4,0xDU,0x80000308U,0x20U,0x800005D0U,
2,0xDU,0x8000002DU,
3,0xDU,0x80000020U,0x8000002DU,
3,0xDU,0x80000308U,0x2DU,
4,0xDU,0x80000308U,0x20U,0x8000002DU,
2,0xDU,0x8000231AU,
3,0xDU,0x80000020U,0x8000231AU,
3,0xDU,0x80000308U,0x8000231AU,
4,0xDU,0x80000308U,0x20U,0x8000231AU,
2,0xDU,0x80002024U,
3,0xDU,0x80000020U,0x80002024U,
3,0xDU,0x80000308U,0x2024U,
4,0xDU,0x80000308U,0x20U,0x80002024U,
2,0xDU,0x8000002CU,
3,0xDU,0x80000020U,0x2CU,
3,0xDU,0x80000308U,0x2CU,
4,0xDU,0x80000308U,0x20U,0x2CU,
2,0xDU,0x80001100U,
3,0xDU,0x80000020U,0x80001100U,
3,0xDU,0x80000308U,0x80001100U,
4,0xDU,0x80000308U,0x20U,0x80001100U,
2,0xDU,0x800011A8U,
3,0xDU,0x80000020U,0x800011A8U,
3,0xDU,0x80000308U,0x800011A8U,
4,0xDU,0x80000308U,0x20U,0x800011A8U,
2,0xDU,0x80001160U,
3,0xDU,0x80000020U,0x80001160U,
3,0xDU,0x80000308U,0x80001160U,
4,0xDU,0x80000308U,0x20U,0x80001160U,
2,0xDU,0xAU,
3,0xDU,0x80000020U,0xAU,
3,0xDU,0x80000308U,0xAU,
4,0xDU,0x80000308U,0x20U,0xAU,
2,0xDU,0x80000085U,
3,0xDU,0x80000020U,0x85U,
3,0xDU,0x80000308U,0x85U,
4,0xDU,0x80000308U,0x20U,0x85U,
2,0xDU,0x800017D6U,
3,0xDU,0x80000020U,0x800017D6U,
3,0xDU,0x80000308U,0x17D6U,
4,0xDU,0x80000308U,0x20U,0x800017D6U,
2,0xDU,0x80000030U,
3,0xDU,0x80000020U,0x80000030U,
3,0xDU,0x80000308U,0x30U,
4,0xDU,0x80000308U,0x20U,0x80000030U,
2,0xDU,0x80002329U,
3,0xDU,0x80000020U,0x80002329U,
3,0xDU,0x80000308U,0x80002329U,
4,0xDU,0x80000308U,0x20U,0x80002329U,
2,0xDU,0x80000025U,
3,0xDU,0x80000020U,0x80000025U,
3,0xDU,0x80000308U,0x25U,
4,0xDU,0x80000308U,0x20U,0x80000025U,
2,0xDU,0x80000024U,
3,0xDU,0x80000020U,0x80000024U,
3,0xDU,0x80000308U,0x24U,
4,0xDU,0x80000308U,0x20U,0x80000024U,
2,0xDU,0x80000022U,
3,0xDU,0x80000020U,0x80000022U,
3,0xDU,0x80000308U,0x22U,
4,0xDU,0x80000308U,0x20U,0x80000022U,
2,0xDU,0x80000020U,
3,0xDU,0x80000020U,0x20U,
3,0xDU,0x80000308U,0x20U,
4,0xDU,0x80000308U,0x20U,0x20U,
2,0xDU,0x8000002FU,
3,0xDU,0x80000020U,0x2FU,
3,0xDU,0x80000308U,0x2FU,
4,0xDU,0x80000308U,0x20U,0x2FU,
2,0xDU,0x80002060U,
3,0xDU,0x80000020U,0x2060U,
3,0xDU,0x80000308U,0x2060U,
4,0xDU,0x80000308U,0x20U,0x2060U,
2,0xDU,0x8000200BU,
3,0xDU,0x80000020U,0x200BU,
3,0xDU,0x80000308U,0x200BU,
4,0xDU,0x80000308U,0x20U,0x200BU,
2,0xDU,0x8001F1E6U,
3,0xDU,0x80000020U,0x8001F1E6U,
3,0xDU,0x80000308U,0x8001F1E6U,
4,0xDU,0x80000308U,0x20U,0x8001F1E6U,
2,0xDU,0x8000261DU,
3,0xDU,0x80000020U,0x8000261DU,
3,0xDU,0x80000308U,0x8000261DU,
4,0xDU,0x80000308U,0x20U,0x8000261DU,
2,0xDU,0x8001F3FBU,
3,0xDU,0x80000020U,0x8001F3FBU,
3,0xDU,0x80000308U,0x8001F3FBU,
4,0xDU,0x80000308U,0x20U,0x8001F3FBU,
2,0xDU,0x80000029U,
3,0xDU,0x80000020U,0x29U,
3,0xDU,0x80000308U,0x29U,
4,0xDU,0x80000308U,0x20U,0x29U,
2,0xDU,0x80000028U,
3,0xDU,0x80000020U,0x80000028U,
3,0xDU,0x80000308U,0x28U,
4,0xDU,0x80000308U,0x20U,0x80000028U,
2,0xDU,0x80000001U,
3,0xDU,0x80000020U,0x80000001U,
3,0xDU,0x80000308U,0x1U,
4,0xDU,0x80000308U,0x20U,0x80000001U,
2,0xDU,0x8000200DU,
3,0xDU,0x80000020U,0x8000200DU,
3,0xDU,0x80000308U,0x200DU,
4,0xDU,0x80000308U,0x20U,0x8000200DU,
2,0xDU,0x800000A7U,
3,0xDU,0x80000020U,0x800000A7U,
3,0xDU,0x80000308U,0xA7U,
4,0xDU,0x80000308U,0x20U,0x800000A7U,
2,0xDU,0x80050005U,
3,0xDU,0x80000020U,0x80050005U,
3,0xDU,0x80000308U,0x50005U,
4,0xDU,0x80000308U,0x20U,0x80050005U,
2,0xDU,0x80000E01U,
3,0xDU,0x80000020U,0x80000E01U,
3,0xDU,0x80000308U,0xE01U,
4,0xDU,0x80000308U,0x20U,0x80000E01U,
2,0xDU,0x80003041U,
3,0xDU,0x80000020U,0x80003041U,
3,0xDU,0x80000308U,0x3041U,
4,0xDU,0x80000308U,0x20U,0x80003041U,
2,0x21U,0x80000023U,
3,0x21U,0x20U,0x80000023U,
3,0x21U,0x308U,0x80000023U,
4,0x21U,0x308U,0x20U,0x80000023U,
2,0x21U,0x80002014U,
3,0x21U,0x20U,0x80002014U,
3,0x21U,0x308U,0x80002014U,
4,0x21U,0x308U,0x20U,0x80002014U,
2,0x21U,0x9U,
3,0x21U,0x20U,0x80000009U,
3,0x21U,0x308U,0x9U,
4,0x21U,0x308U,0x20U,0x80000009U,
2,0x21U,0x800000B4U,
3,0x21U,0x20U,0x800000B4U,
3,0x21U,0x308U,0x800000B4U,
4,0x21U,0x308U,0x20U,0x800000B4U,
2,0x21U,0xBU,
3,0x21U,0x20U,0xBU,
3,0x21U,0x308U,0xBU,
4,0x21U,0x308U,0x20U,0xBU,
2,0x21U,0x8000FFFCU,
3,0x21U,0x20U,0x8000FFFCU,
3,0x21U,0x308U,0x8000FFFCU,
4,0x21U,0x308U,0x20U,0x8000FFFCU,
2,0x21U,0x7DU,
3,0x21U,0x20U,0x7DU,
3,0x21U,0x308U,0x7DU,
4,0x21U,0x308U,0x20U,0x7DU,
2,0x21U,0xDU,
3,0x21U,0x20U,0xDU,
3,0x21U,0x308U,0xDU,
4,0x21U,0x308U,0x20U,0xDU,
2,0x21U,0x21U,
3,0x21U,0x20U,0x21U,
3,0x21U,0x308U,0x21U,
4,0x21U,0x308U,0x20U,0x21U,
2,0x21U,0xA0U,
3,0x21U,0x20U,0x800000A0U,
3,0x21U,0x308U,0xA0U,
4,0x21U,0x308U,0x20U,0x800000A0U,
2,0x21U,0x8000AC00U,
3,0x21U,0x20U,0x8000AC00U,
3,0x21U,0x308U,0x8000AC00U,
4,0x21U,0x308U,0x20U,0x8000AC00U,
2,0x21U,0x8000AC01U,
3,0x21U,0x20U,0x8000AC01U,
3,0x21U,0x308U,0x8000AC01U,
4,0x21U,0x308U,0x20U,0x8000AC01U,
2,0x21U,0x800005D0U,
3,0x21U,0x20U,0x800005D0U,
3,0x21U,0x308U,0x800005D0U,
4,0x21U,0x308U,0x20U,0x800005D0U,
2,0x21U,0x2DU,
3,0x21U,0x20U,0x8000002DU,
3,0x21U,0x308U,0x2DU,
4,0x21U,0x308U,0x20U,0x8000002DU,
2,0x21U,0x8000231AU,
3,0x21U,0x20U,0x8000231AU,
3,0x21U,0x308U,0x8000231AU,
4,0x21U,0x308U,0x20U,0x8000231AU,
2,0x21U,0x2024U,
3,0x21U,0x20U,0x80002024U,
3,0x21U,0x308U,0x2024U,
4,0x21U,0x308U,0x20U,0x80002024U,
2,0x21U,0x2CU,
3,0x21U,0x20U,0x2CU,
3,0x21U,0x308U,0x2CU,
4,0x21U,0x308U,0x20U,0x2CU,
2,0x21U,0x80001100U,
3,0x21U,0x20U,0x80001100U,
3,0x21U,0x308U,0x80001100U,
4,0x21U,0x308U,0x20U,0x80001100U,
2,0x21U,0x800011A8U,
3,0x21U,0x20U,0x800011A8U,
3,0x21U,0x308U,0x800011A8U,
4,0x21U,0x308U,0x20U,0x800011A8U,
2,0x21U,0x80001160U,
3,0x21U,0x20U,0x80001160U,
3,0x21U,0x308U,0x80001160U,
4,0x21U,0x308U,0x20U,0x80001160U,
2,0x21U,0xAU,
3,0x21U,0x20U,0xAU,
3,0x21U,0x308U,0xAU,
4,0x21U,0x308U,0x20U,0xAU,
2,0x21U,0x85U,
3,0x21U,0x20U,0x85U,
3,0x21U,0x308U,0x85U,
4,0x21U,0x308U,0x20U,0x85U,
2,0x21U,0x17D6U,
3,0x21U,0x20U,0x800017D6U,
3,0x21U,0x308U,0x17D6U,
4,0x21U,0x308U,0x20U,0x800017D6U,
2,0x21U,0x80000030U,
3,0x21U,0x20U,0x80000030U,
3,0x21U,0x308U,0x80000030U,
4,0x21U,0x308U,0x20U,0x80000030U,
2,0x21U,0x80002329U,
3,0x21U,0x20U,0x80002329U,
3,0x21U,0x308U,0x80002329U,
4,0x21U,0x308U,0x20U,0x80002329U,
2,0x21U,0x80000025U,
3,0x21U,0x20U,0x80000025U,
3,0x21U,0x308U,0x80000025U,
4,0x21U,0x308U,0x20U,0x80000025U,
2,0x21U,0x80000024U,
3,0x21U,0x20U,0x80000024U,
3,0x21U,0x308U,0x80000024U,
4,0x21U,0x308U,0x20U,0x80000024U,
2,0x21U,0x22U,
3,0x21U,0x20U,0x80000022U,
3,0x21U,0x308U,0x22U,
4,0x21U,0x308U,0x20U,0x80000022U,
2,0x21U,0x20U,
3,0x21U,0x20U,0x20U,
3,0x21U,0x308U,0x20U,
4,0x21U,0x308U,0x20U,0x20U,
2,0x21U,0x2FU,
3,0x21U,0x20U,0x2FU,
3,0x21U,0x308U,0x2FU,
4,0x21U,0x308U,0x20U,0x2FU,
2,0x21U,0x2060U,
3,0x21U,0x20U,0x2060U,
3,0x21U,0x308U,0x2060U,
4,0x21U,0x308U,0x20U,0x2060U,
2,0x21U,0x200BU,
3,0x21U,0x20U,0x200BU,
3,0x21U,0x308U,0x200BU,
4,0x21U,0x308U,0x20U,0x200BU,
2,0x21U,0x8001F1E6U,
3,0x21U,0x20U,0x8001F1E6U,
3,0x21U,0x308U,0x8001F1E6U,
4,0x21U,0x308U,0x20U,0x8001F1E6U,
2,0x21U,0x8000261DU,
3,0x21U,0x20U,0x8000261DU,
3,0x21U,0x308U,0x8000261DU,
4,0x21U,0x308U,0x20U,0x8000261DU,
2,0x21U,0x8001F3FBU,
3,0x21U,0x20U,0x8001F3FBU,
3,0x21U,0x308U,0x8001F3FBU,
4,0x21U,0x308U,0x20U,0x8001F3FBU,
2,0x21U,0x29U,
3,0x21U,0x20U,0x29U,
3,0x21U,0x308U,0x29U,
4,0x21U,0x308U,0x20U,0x29U,
2,0x21U,0x80000028U,
3,0x21U,0x20U,0x80000028U,
3,0x21U,0x308U,0x80000028U,
4,0x21U,0x308U,0x20U,0x80000028U,
2,0x21U,0x1U,
3,0x21U,0x20U,0x80000001U,
3,0x21U,0x308U,0x1U,
4,0x21U,0x308U,0x20U,0x80000001U,
2,0x21U,0x200DU,
3,0x21U,0x20U,0x8000200DU,
3,0x21U,0x308U,0x200DU,
4,0x21U,0x308U,0x20U,0x8000200DU,
2,0x21U,0x800000A7U,
3,0x21U,0x20U,0x800000A7U,
3,0x21U,0x308U,0x800000A7U,
4,0x21U,0x308U,0x20U,0x800000A7U,
2,0x21U,0x80050005U,
3,0x21U,0x20U,0x80050005U,
3,0x21U,0x308U,0x80050005U,
4,0x21U,0x308U,0x20U,0x80050005U,
2,0x21U,0x80000E01U,
3,0x21U,0x20U,0x80000E01U,
3,0x21U,0x308U,0x80000E01U,
4,0x21U,0x308U,0x20U,0x80000E01U,
2,0x21U,0x3041U,
3,0x21U,0x20U,0x80003041U,
3,0x21U,0x308U,0x3041U,
4,0x21U,0x308U,0x20U,0x80003041U,
2,0xA0U,0x23U,
3,0xA0U,0x20U,0x80000023U,
3,0xA0U,0x308U,0x23U,
4,0xA0U,0x308U,0x20U,0x80000023U,
2,0xA0U,0x2014U,
3,0xA0U,0x20U,0x80002014U,
3,0xA0U,0x308U,0x2014U,
4,0xA0U,0x308U,0x20U,0x80002014U,
2,0xA0U,0x9U,
3,0xA0U,0x20U,0x80000009U,
3,0xA0U,0x308U,0x9U,
4,0xA0U,0x308U,0x20U,0x80000009U,
2,0xA0U,0xB4U,
3,0xA0U,0x20U,0x800000B4U,
3,0xA0U,0x308U,0xB4U,
4,0xA0U,0x308U,0x20U,0x800000B4U,
2,0xA0U,0xBU,
3,0xA0U,0x20U,0xBU,
3,0xA0U,0x308U,0xBU,
4,0xA0U,0x308U,0x20U,0xBU,
2,0xA0U,0xFFFCU,
3,0xA0U,0x20U,0x8000FFFCU,
3,0xA0U,0x308U,0xFFFCU,
4,0xA0U,0x308U,0x20U,0x8000FFFCU,
2,0xA0U,0x7DU,
3,0xA0U,0x20U,0x7DU,
3,0xA0U,0x308U,0x7DU,
4,0xA0U,0x308U,0x20U,0x7DU,
2,0xA0U,0xDU,
3,0xA0U,0x20U,0xDU,
3,0xA0U,0x308U,0xDU,
4,0xA0U,0x308U,0x20U,0xDU,
2,0xA0U,0x21U,
3,0xA0U,0x20U,0x21U,
3,0xA0U,0x308U,0x21U,
4,0xA0U,0x308U,0x20U,0x21U,
2,0xA0U,0xA0U,
3,0xA0U,0x20U,0x800000A0U,
3,0xA0U,0x308U,0xA0U,
4,0xA0U,0x308U,0x20U,0x800000A0U,
2,0xA0U,0xAC00U,
3,0xA0U,0x20U,0x8000AC00U,
3,0xA0U,0x308U,0xAC00U,
4,0xA0U,0x308U,0x20U,0x8000AC00U,
2,0xA0U,0xAC01U,
3,0xA0U,0x20U,0x8000AC01U,
3,0xA0U,0x308U,0xAC01U,
4,0xA0U,0x308U,0x20U,0x8000AC01U,
2,0xA0U,0x5D0U,
3,0xA0U,0x20U,0x800005D0U,
3,0xA0U,0x308U,0x5D0U,
4,0xA0U,0x308U,0x20U,0x800005D0U,
2,0xA0U,0x2DU,
3,0xA0U,0x20U,0x8000002DU,
3,0xA0U,0x308U,0x2DU,
4,0xA0U,0x308U,0x20U,0x8000002DU,
2,0xA0U,0x231AU,
3,0xA0U,0x20U,0x8000231AU,
3,0xA0U,0x308U,0x231AU,
4,0xA0U,0x308U,0x20U,0x8000231AU,
2,0xA0U,0x2024U,
3,0xA0U,0x20U,0x80002024U,
3,0xA0U,0x308U,0x2024U,
4,0xA0U,0x308U,0x20U,0x80002024U,
2,0xA0U,0x2CU,
3,0xA0U,0x20U,0x2CU,
3,0xA0U,0x308U,0x2CU,
4,0xA0U,0x308U,0x20U,0x2CU,
2,0xA0U,0x1100U,
3,0xA0U,0x20U,0x80001100U,
3,0xA0U,0x308U,0x1100U,
4,0xA0U,0x308U,0x20U,0x80001100U,
2,0xA0U,0x11A8U,
3,0xA0U,0x20U,0x800011A8U,
3,0xA0U,0x308U,0x11A8U,
4,0xA0U,0x308U,0x20U,0x800011A8U,
2,0xA0U,0x1160U,
3,0xA0U,0x20U,0x80001160U,
3,0xA0U,0x308U,0x1160U,
4,0xA0U,0x308U,0x20U,0x80001160U,
2,0xA0U,0xAU,
3,0xA0U,0x20U,0xAU,
3,0xA0U,0x308U,0xAU,
4,0xA0U,0x308U,0x20U,0xAU,
2,0xA0U,0x85U,
3,0xA0U,0x20U,0x85U,
3,0xA0U,0x308U,0x85U,
4,0xA0U,0x308U,0x20U,0x85U,
2,0xA0U,0x17D6U,
3,0xA0U,0x20U,0x800017D6U,
3,0xA0U,0x308U,0x17D6U,
4,0xA0U,0x308U,0x20U,0x800017D6U,
2,0xA0U,0x30U,
3,0xA0U,0x20U,0x80000030U,
3,0xA0U,0x308U,0x30U,
4,0xA0U,0x308U,0x20U,0x80000030U,
2,0xA0U,0x2329U,
3,0xA0U,0x20U,0x80002329U,
3,0xA0U,0x308U,0x2329U,
4,0xA0U,0x308U,0x20U,0x80002329U,
2,0xA0U,0x25U,
3,0xA0U,0x20U,0x80000025U,
3,0xA0U,0x308U,0x25U,
4,0xA0U,0x308U,0x20U,0x80000025U,
2,0xA0U,0x24U,
3,0xA0U,0x20U,0x80000024U,
3,0xA0U,0x308U,0x24U,
4,0xA0U,0x308U,0x20U,0x80000024U,
2,0xA0U,0x22U,
3,0xA0U,0x20U,0x80000022U,
3,0xA0U,0x308U,0x22U,
4,0xA0U,0x308U,0x20U,0x80000022U,
2,0xA0U,0x20U,
3,0xA0U,0x20U,0x20U,
3,0xA0U,0x308U,0x20U,
4,0xA0U,0x308U,0x20U,0x20U,
2,0xA0U,0x2FU,
3,0xA0U,0x20U,0x2FU,
3,0xA0U,0x308U,0x2FU,
4,0xA0U,0x308U,0x20U,0x2FU,
2,0xA0U,0x2060U,
3,0xA0U,0x20U,0x2060U,
3,0xA0U,0x308U,0x2060U,
4,0xA0U,0x308U,0x20U,0x2060U,
2,0xA0U,0x200BU,
3,0xA0U,0x20U,0x200BU,
3,0xA0U,0x308U,0x200BU,
4,0xA0U,0x308U,0x20U,0x200BU,
2,0xA0U,0x1F1E6U,
3,0xA0U,0x20U,0x8001F1E6U,
3,0xA0U,0x308U,0x1F1E6U,
4,0xA0U,0x308U,0x20U,0x8001F1E6U,
2,0xA0U,0x261DU,
3,0xA0U,0x20U,0x8000261DU,
3,0xA0U,0x308U,0x261DU,
4,0xA0U,0x308U,0x20U,0x8000261DU,
2,0xA0U,0x1F3FBU,
3,0xA0U,0x20U,0x8001F3FBU,
3,0xA0U,0x308U,0x1F3FBU,
4,0xA0U,0x308U,0x20U,0x8001F3FBU,
2,0xA0U,0x29U,
3,0xA0U,0x20U,0x29U,
3,0xA0U,0x308U,0x29U,
4,0xA0U,0x308U,0x20U,0x29U,
2,0xA0U,0x28U,
3,0xA0U,0x20U,0x80000028U,
3,0xA0U,0x308U,0x28U,
4,0xA0U,0x308U,0x20U,0x80000028U,
2,0xA0U,0x1U,
3,0xA0U,0x20U,0x80000001U,
3,0xA0U,0x308U,0x1U,
4,0xA0U,0x308U,0x20U,0x80000001U,
2,0xA0U,0x200DU,
3,0xA0U,0x20U,0x8000200DU,
3,0xA0U,0x308U,0x200DU,
4,0xA0U,0x308U,0x20U,0x8000200DU,
2,0xA0U,0xA7U,
3,0xA0U,0x20U,0x800000A7U,
3,0xA0U,0x308U,0xA7U,
4,0xA0U,0x308U,0x20U,0x800000A7U,
2,0xA0U,0x50005U,
3,0xA0U,0x20U,0x80050005U,
3,0xA0U,0x308U,0x50005U,
4,0xA0U,0x308U,0x20U,0x80050005U,
2,0xA0U,0xE01U,
3,0xA0U,0x20U,0x80000E01U,
3,0xA0U,0x308U,0xE01U,
4,0xA0U,0x308U,0x20U,0x80000E01U,
2,0xA0U,0x3041U,
3,0xA0U,0x20U,0x80003041U,
3,0xA0U,0x308U,0x3041U,
4,0xA0U,0x308U,0x20U,0x80003041U,
2,0xAC00U,0x80000023U,
3,0xAC00U,0x20U,0x80000023U,
3,0xAC00U,0x308U,0x80000023U,
4,0xAC00U,0x308U,0x20U,0x80000023U,
2,0xAC00U,0x80002014U,
3,0xAC00U,0x20U,0x80002014U,
3,0xAC00U,0x308U,0x80002014U,
4,0xAC00U,0x308U,0x20U,0x80002014U,
2,0xAC00U,0x9U,
3,0xAC00U,0x20U,0x80000009U,
3,0xAC00U,0x308U,0x9U,
4,0xAC00U,0x308U,0x20U,0x80000009U,
2,0xAC00U,0x800000B4U,
3,0xAC00U,0x20U,0x800000B4U,
3,0xAC00U,0x308U,0x800000B4U,
4,0xAC00U,0x308U,0x20U,0x800000B4U,
2,0xAC00U,0xBU,
3,0xAC00U,0x20U,0xBU,
3,0xAC00U,0x308U,0xBU,
4,0xAC00U,0x308U,0x20U,0xBU,
2,0xAC00U,0x8000FFFCU,
3,0xAC00U,0x20U,0x8000FFFCU,
3,0xAC00U,0x308U,0x8000FFFCU,
4,0xAC00U,0x308U,0x20U,0x8000FFFCU,
2,0xAC00U,0x7DU,
3,0xAC00U,0x20U,0x7DU,
3,0xAC00U,0x308U,0x7DU,
4,0xAC00U,0x308U,0x20U,0x7DU,
2,0xAC00U,0xDU,
3,0xAC00U,0x20U,0xDU,
3,0xAC00U,0x308U,0xDU,
4,0xAC00U,0x308U,0x20U,0xDU,
2,0xAC00U,0x21U,
3,0xAC00U,0x20U,0x21U,
3,0xAC00U,0x308U,0x21U,
4,0xAC00U,0x308U,0x20U,0x21U,
2,0xAC00U,0xA0U,
3,0xAC00U,0x20U,0x800000A0U,
3,0xAC00U,0x308U,0xA0U,
4,0xAC00U,0x308U,0x20U,0x800000A0U,
2,0xAC00U,0x8000AC00U,
3,0xAC00U,0x20U,0x8000AC00U,
3,0xAC00U,0x308U,0x8000AC00U,
4,0xAC00U,0x308U,0x20U,0x8000AC00U,
2,0xAC00U,0x8000AC01U,
3,0xAC00U,0x20U,0x8000AC01U,
3,0xAC00U,0x308U,0x8000AC01U,
4,0xAC00U,0x308U,0x20U,0x8000AC01U,
2,0xAC00U,0x800005D0U,
3,0xAC00U,0x20U,0x800005D0U,
3,0xAC00U,0x308U,0x800005D0U,
4,0xAC00U,0x308U,0x20U,0x800005D0U,
2,0xAC00U,0x2DU,
3,0xAC00U,0x20U,0x8000002DU,
3,0xAC00U,0x308U,0x2DU,
4,0xAC00U,0x308U,0x20U,0x8000002DU,
2,0xAC00U,0x8000231AU,
3,0xAC00U,0x20U,0x8000231AU,
3,0xAC00U,0x308U,0x8000231AU,
4,0xAC00U,0x308U,0x20U,0x8000231AU,
2,0xAC00U,0x2024U,
3,0xAC00U,0x20U,0x80002024U,
3,0xAC00U,0x308U,0x2024U,
4,0xAC00U,0x308U,0x20U,0x80002024U,
2,0xAC00U,0x2CU,
3,0xAC00U,0x20U,0x2CU,
3,0xAC00U,0x308U,0x2CU,
4,0xAC00U,0x308U,0x20U,0x2CU,
2,0xAC00U,0x80001100U,
3,0xAC00U,0x20U,0x80001100U,
3,0xAC00U,0x308U,0x80001100U,
4,0xAC00U,0x308U,0x20U,0x80001100U,
2,0xAC00U,0x11A8U,
3,0xAC00U,0x20U,0x800011A8U,
3,0xAC00U,0x308U,0x11A8U,
4,0xAC00U,0x308U,0x20U,0x800011A8U,
2,0xAC00U,0x1160U,
3,0xAC00U,0x20U,0x80001160U,
3,0xAC00U,0x308U,0x1160U,
4,0xAC00U,0x308U,0x20U,0x80001160U,
2,0xAC00U,0xAU,
3,0xAC00U,0x20U,0xAU,
3,0xAC00U,0x308U,0xAU,
4,0xAC00U,0x308U,0x20U,0xAU,
2,0xAC00U,0x85U,
3,0xAC00U,0x20U,0x85U,
3,0xAC00U,0x308U,0x85U,
4,0xAC00U,0x308U,0x20U,0x85U,
2,0xAC00U,0x17D6U,
3,0xAC00U,0x20U,0x800017D6U,
3,0xAC00U,0x308U,0x17D6U,
4,0xAC00U,0x308U,0x20U,0x800017D6U,
2,0xAC00U,0x80000030U,
3,0xAC00U,0x20U,0x80000030U,
3,0xAC00U,0x308U,0x80000030U,
4,0xAC00U,0x308U,0x20U,0x80000030U,
2,0xAC00U,0x80002329U,
3,0xAC00U,0x20U,0x80002329U,
3,0xAC00U,0x308U,0x80002329U,
4,0xAC00U,0x308U,0x20U,0x80002329U,
2,0xAC00U,0x25U,
3,0xAC00U,0x20U,0x80000025U,
3,0xAC00U,0x308U,0x25U,
4,0xAC00U,0x308U,0x20U,0x80000025U,
2,0xAC00U,0x80000024U,
3,0xAC00U,0x20U,0x80000024U,
3,0xAC00U,0x308U,0x80000024U,
4,0xAC00U,0x308U,0x20U,0x80000024U,
2,0xAC00U,0x22U,
3,0xAC00U,0x20U,0x80000022U,
3,0xAC00U,0x308U,0x22U,
4,0xAC00U,0x308U,0x20U,0x80000022U,
2,0xAC00U,0x20U,
3,0xAC00U,0x20U,0x20U,
3,0xAC00U,0x308U,0x20U,
4,0xAC00U,0x308U,0x20U,0x20U,
2,0xAC00U,0x2FU,
3,0xAC00U,0x20U,0x2FU,
3,0xAC00U,0x308U,0x2FU,
4,0xAC00U,0x308U,0x20U,0x2FU,
2,0xAC00U,0x2060U,
3,0xAC00U,0x20U,0x2060U,
3,0xAC00U,0x308U,0x2060U,
4,0xAC00U,0x308U,0x20U,0x2060U,
2,0xAC00U,0x200BU,
3,0xAC00U,0x20U,0x200BU,
3,0xAC00U,0x308U,0x200BU,
4,0xAC00U,0x308U,0x20U,0x200BU,
2,0xAC00U,0x8001F1E6U,
3,0xAC00U,0x20U,0x8001F1E6U,
3,0xAC00U,0x308U,0x8001F1E6U,
4,0xAC00U,0x308U,0x20U,0x8001F1E6U,
2,0xAC00U,0x8000261DU,
3,0xAC00U,0x20U,0x8000261DU,
3,0xAC00U,0x308U,0x8000261DU,
4,0xAC00U,0x308U,0x20U,0x8000261DU,
2,0xAC00U,0x8001F3FBU,
3,0xAC00U,0x20U,0x8001F3FBU,
3,0xAC00U,0x308U,0x8001F3FBU,
4,0xAC00U,0x308U,0x20U,0x8001F3FBU,
2,0xAC00U,0x29U,
3,0xAC00U,0x20U,0x29U,
3,0xAC00U,0x308U,0x29U,
4,0xAC00U,0x308U,0x20U,0x29U,
2,0xAC00U,0x80000028U,
3,0xAC00U,0x20U,0x80000028U,
3,0xAC00U,0x308U,0x80000028U,
4,0xAC00U,0x308U,0x20U,0x80000028U,
2,0xAC00U,0x1U,
3,0xAC00U,0x20U,0x80000001U,
3,0xAC00U,0x308U,0x1U,
4,0xAC00U,0x308U,0x20U,0x80000001U,
2,0xAC00U,0x200DU,
3,0xAC00U,0x20U,0x8000200DU,
3,0xAC00U,0x308U,0x200DU,
4,0xAC00U,0x308U,0x20U,0x8000200DU,
2,0xAC00U,0x800000A7U,
3,0xAC00U,0x20U,0x800000A7U,
3,0xAC00U,0x308U,0x800000A7U,
4,0xAC00U,0x308U,0x20U,0x800000A7U,
2,0xAC00U,0x80050005U,
3,0xAC00U,0x20U,0x80050005U,
3,0xAC00U,0x308U,0x80050005U,
4,0xAC00U,0x308U,0x20U,0x80050005U,
2,0xAC00U,0x80000E01U,
3,0xAC00U,0x20U,0x80000E01U,
3,0xAC00U,0x308U,0x80000E01U,
4,0xAC00U,0x308U,0x20U,0x80000E01U,
2,0xAC00U,0x3041U,
3,0xAC00U,0x20U,0x80003041U,
3,0xAC00U,0x308U,0x3041U,
4,0xAC00U,0x308U,0x20U,0x80003041U,
2,0xAC01U,0x80000023U,
3,0xAC01U,0x20U,0x80000023U,
3,0xAC01U,0x308U,0x80000023U,
4,0xAC01U,0x308U,0x20U,0x80000023U,
2,0xAC01U,0x80002014U,
3,0xAC01U,0x20U,0x80002014U,
3,0xAC01U,0x308U,0x80002014U,
4,0xAC01U,0x308U,0x20U,0x80002014U,
2,0xAC01U,0x9U,
3,0xAC01U,0x20U,0x80000009U,
3,0xAC01U,0x308U,0x9U,
4,0xAC01U,0x308U,0x20U,0x80000009U,
2,0xAC01U,0x800000B4U,
3,0xAC01U,0x20U,0x800000B4U,
3,0xAC01U,0x308U,0x800000B4U,
4,0xAC01U,0x308U,0x20U,0x800000B4U,
2,0xAC01U,0xBU,
3,0xAC01U,0x20U,0xBU,
3,0xAC01U,0x308U,0xBU,
4,0xAC01U,0x308U,0x20U,0xBU,
2,0xAC01U,0x8000FFFCU,
3,0xAC01U,0x20U,0x8000FFFCU,
3,0xAC01U,0x308U,0x8000FFFCU,
4,0xAC01U,0x308U,0x20U,0x8000FFFCU,
2,0xAC01U,0x7DU,
3,0xAC01U,0x20U,0x7DU,
3,0xAC01U,0x308U,0x7DU,
4,0xAC01U,0x308U,0x20U,0x7DU,
2,0xAC01U,0xDU,
3,0xAC01U,0x20U,0xDU,
3,0xAC01U,0x308U,0xDU,
4,0xAC01U,0x308U,0x20U,0xDU,
2,0xAC01U,0x21U,
3,0xAC01U,0x20U,0x21U,
3,0xAC01U,0x308U,0x21U,
4,0xAC01U,0x308U,0x20U,0x21U,
2,0xAC01U,0xA0U,
3,0xAC01U,0x20U,0x800000A0U,
3,0xAC01U,0x308U,0xA0U,
4,0xAC01U,0x308U,0x20U,0x800000A0U,
2,0xAC01U,0x8000AC00U,
3,0xAC01U,0x20U,0x8000AC00U,
3,0xAC01U,0x308U,0x8000AC00U,
4,0xAC01U,0x308U,0x20U,0x8000AC00U,
2,0xAC01U,0x8000AC01U,
3,0xAC01U,0x20U,0x8000AC01U,
3,0xAC01U,0x308U,0x8000AC01U,
4,0xAC01U,0x308U,0x20U,0x8000AC01U,
2,0xAC01U,0x800005D0U,
3,0xAC01U,0x20U,0x800005D0U,
3,0xAC01U,0x308U,0x800005D0U,
4,0xAC01U,0x308U,0x20U,0x800005D0U,
2,0xAC01U,0x2DU,
3,0xAC01U,0x20U,0x8000002DU,
3,0xAC01U,0x308U,0x2DU,
4,0xAC01U,0x308U,0x20U,0x8000002DU,
2,0xAC01U,0x8000231AU,
3,0xAC01U,0x20U,0x8000231AU,
3,0xAC01U,0x308U,0x8000231AU,
4,0xAC01U,0x308U,0x20U,0x8000231AU,
2,0xAC01U,0x2024U,
3,0xAC01U,0x20U,0x80002024U,
3,0xAC01U,0x308U,0x2024U,
4,0xAC01U,0x308U,0x20U,0x80002024U,
2,0xAC01U,0x2CU,
3,0xAC01U,0x20U,0x2CU,
3,0xAC01U,0x308U,0x2CU,
4,0xAC01U,0x308U,0x20U,0x2CU,
2,0xAC01U,0x80001100U,
3,0xAC01U,0x20U,0x80001100U,
3,0xAC01U,0x308U,0x80001100U,
4,0xAC01U,0x308U,0x20U,0x80001100U,
2,0xAC01U,0x11A8U,
3,0xAC01U,0x20U,0x800011A8U,
3,0xAC01U,0x308U,0x11A8U,
4,0xAC01U,0x308U,0x20U,0x800011A8U,
2,0xAC01U,0x80001160U,
3,0xAC01U,0x20U,0x80001160U,
3,0xAC01U,0x308U,0x80001160U,
4,0xAC01U,0x308U,0x20U,0x80001160U,
2,0xAC01U,0xAU,
3,0xAC01U,0x20U,0xAU,
3,0xAC01U,0x308U,0xAU,
4,0xAC01U,0x308U,0x20U,0xAU,
2,0xAC01U,0x85U,
3,0xAC01U,0x20U,0x85U,
3,0xAC01U,0x308U,0x85U,
4,0xAC01U,0x308U,0x20U,0x85U,
2,0xAC01U,0x17D6U,
3,0xAC01U,0x20U,0x800017D6U,
3,0xAC01U,0x308U,0x17D6U,
4,0xAC01U,0x308U,0x20U,0x800017D6U,
2,0xAC01U,0x80000030U,
3,0xAC01U,0x20U,0x80000030U,
3,0xAC01U,0x308U,0x80000030U,
4,0xAC01U,0x308U,0x20U,0x80000030U,
2,0xAC01U,0x80002329U,
3,0xAC01U,0x20U,0x80002329U,
3,0xAC01U,0x308U,0x80002329U,
4,0xAC01U,0x308U,0x20U,0x80002329U,
2,0xAC01U,0x25U,
3,0xAC01U,0x20U,0x80000025U,
3,0xAC01U,0x308U,0x25U,
4,0xAC01U,0x308U,0x20U,0x80000025U,
2,0xAC01U,0x80000024U,
3,0xAC01U,0x20U,0x80000024U,
3,0xAC01U,0x308U,0x80000024U,
4,0xAC01U,0x308U,0x20U,0x80000024U,
2,0xAC01U,0x22U,
3,0xAC01U,0x20U,0x80000022U,
3,0xAC01U,0x308U,0x22U,
4,0xAC01U,0x308U,0x20U,0x80000022U,
2,0xAC01U,0x20U,
3,0xAC01U,0x20U,0x20U,
3,0xAC01U,0x308U,0x20U,
4,0xAC01U,0x308U,0x20U,0x20U,
2,0xAC01U,0x2FU,
3,0xAC01U,0x20U,0x2FU,
3,0xAC01U,0x308U,0x2FU,
4,0xAC01U,0x308U,0x20U,0x2FU,
2,0xAC01U,0x2060U,
3,0xAC01U,0x20U,0x2060U,
3,0xAC01U,0x308U,0x2060U,
4,0xAC01U,0x308U,0x20U,0x2060U,
2,0xAC01U,0x200BU,
3,0xAC01U,0x20U,0x200BU,
3,0xAC01U,0x308U,0x200BU,
4,0xAC01U,0x308U,0x20U,0x200BU,
2,0xAC01U,0x8001F1E6U,
3,0xAC01U,0x20U,0x8001F1E6U,
3,0xAC01U,0x308U,0x8001F1E6U,
4,0xAC01U,0x308U,0x20U,0x8001F1E6U,
2,0xAC01U,0x8000261DU,
3,0xAC01U,0x20U,0x8000261DU,
3,0xAC01U,0x308U,0x8000261DU,
4,0xAC01U,0x308U,0x20U,0x8000261DU,
2,0xAC01U,0x8001F3FBU,
3,0xAC01U,0x20U,0x8001F3FBU,
3,0xAC01U,0x308U,0x8001F3FBU,
4,0xAC01U,0x308U,0x20U,0x8001F3FBU,
2,0xAC01U,0x29U,
3,0xAC01U,0x20U,0x29U,
3,0xAC01U,0x308U,0x29U,
4,0xAC01U,0x308U,0x20U,0x29U,
2,0xAC01U,0x80000028U,
3,0xAC01U,0x20U,0x80000028U,
3,0xAC01U,0x308U,0x80000028U,
4,0xAC01U,0x308U,0x20U,0x80000028U,
2,0xAC01U,0x1U,
3,0xAC01U,0x20U,0x80000001U,
3,0xAC01U,0x308U,0x1U,
4,0xAC01U,0x308U,0x20U,0x80000001U,
2,0xAC01U,0x200DU,
3,0xAC01U,0x20U,0x8000200DU,
3,0xAC01U,0x308U,0x200DU,
4,0xAC01U,0x308U,0x20U,0x8000200DU,
2,0xAC01U,0x800000A7U,
3,0xAC01U,0x20U,0x800000A7U,
3,0xAC01U,0x308U,0x800000A7U,
4,0xAC01U,0x308U,0x20U,0x800000A7U,
2,0xAC01U,0x80050005U,
3,0xAC01U,0x20U,0x80050005U,
3,0xAC01U,0x308U,0x80050005U,
4,0xAC01U,0x308U,0x20U,0x80050005U,
2,0xAC01U,0x80000E01U,
3,0xAC01U,0x20U,0x80000E01U,
3,0xAC01U,0x308U,0x80000E01U,
4,0xAC01U,0x308U,0x20U,0x80000E01U,
2,0xAC01U,0x3041U,
3,0xAC01U,0x20U,0x80003041U,
3,0xAC01U,0x308U,0x3041U,
4,0xAC01U,0x308U,0x20U,0x80003041U,
2,0x5D0U,0x23U,
3,0x5D0U,0x20U,0x80000023U,
3,0x5D0U,0x308U,0x23U,
4,0x5D0U,0x308U,0x20U,0x80000023U,
2,0x5D0U,0x80002014U,
3,0x5D0U,0x20U,0x80002014U,
3,0x5D0U,0x308U,0x80002014U,
4,0x5D0U,0x308U,0x20U,0x80002014U,
2,0x5D0U,0x9U,
3,0x5D0U,0x20U,0x80000009U,
3,0x5D0U,0x308U,0x9U,
4,0x5D0U,0x308U,0x20U,0x80000009U,
2,0x5D0U,0x800000B4U,
3,0x5D0U,0x20U,0x800000B4U,
3,0x5D0U,0x308U,0x800000B4U,
4,0x5D0U,0x308U,0x20U,0x800000B4U,
2,0x5D0U,0xBU,
3,0x5D0U,0x20U,0xBU,
3,0x5D0U,0x308U,0xBU,
4,0x5D0U,0x308U,0x20U,0xBU,
2,0x5D0U,0x8000FFFCU,
3,0x5D0U,0x20U,0x8000FFFCU,
3,0x5D0U,0x308U,0x8000FFFCU,
4,0x5D0U,0x308U,0x20U,0x8000FFFCU,
2,0x5D0U,0x7DU,
3,0x5D0U,0x20U,0x7DU,
3,0x5D0U,0x308U,0x7DU,
4,0x5D0U,0x308U,0x20U,0x7DU,
2,0x5D0U,0xDU,
3,0x5D0U,0x20U,0xDU,
3,0x5D0U,0x308U,0xDU,
4,0x5D0U,0x308U,0x20U,0xDU,
2,0x5D0U,0x21U,
3,0x5D0U,0x20U,0x21U,
3,0x5D0U,0x308U,0x21U,
4,0x5D0U,0x308U,0x20U,0x21U,
2,0x5D0U,0xA0U,
3,0x5D0U,0x20U,0x800000A0U,
3,0x5D0U,0x308U,0xA0U,
4,0x5D0U,0x308U,0x20U,0x800000A0U,
2,0x5D0U,0x8000AC00U,
3,0x5D0U,0x20U,0x8000AC00U,
3,0x5D0U,0x308U,0x8000AC00U,
4,0x5D0U,0x308U,0x20U,0x8000AC00U,
2,0x5D0U,0x8000AC01U,
3,0x5D0U,0x20U,0x8000AC01U,
3,0x5D0U,0x308U,0x8000AC01U,
4,0x5D0U,0x308U,0x20U,0x8000AC01U,
2,0x5D0U,0x5D0U,
3,0x5D0U,0x20U,0x800005D0U,
3,0x5D0U,0x308U,0x5D0U,
4,0x5D0U,0x308U,0x20U,0x800005D0U,
2,0x5D0U,0x2DU,
3,0x5D0U,0x20U,0x8000002DU,
3,0x5D0U,0x308U,0x2DU,
4,0x5D0U,0x308U,0x20U,0x8000002DU,
2,0x5D0U,0x8000231AU,
3,0x5D0U,0x20U,0x8000231AU,
3,0x5D0U,0x308U,0x8000231AU,
4,0x5D0U,0x308U,0x20U,0x8000231AU,
2,0x5D0U,0x2024U,
3,0x5D0U,0x20U,0x80002024U,
3,0x5D0U,0x308U,0x2024U,
4,0x5D0U,0x308U,0x20U,0x80002024U,
2,0x5D0U,0x2CU,
3,0x5D0U,0x20U,0x2CU,
3,0x5D0U,0x308U,0x2CU,
4,0x5D0U,0x308U,0x20U,0x2CU,
2,0x5D0U,0x80001100U,
3,0x5D0U,0x20U,0x80001100U,
3,0x5D0U,0x308U,0x80001100U,
4,0x5D0U,0x308U,0x20U,0x80001100U,
2,0x5D0U,0x800011A8U,
3,0x5D0U,0x20U,0x800011A8U,
3,0x5D0U,0x308U,0x800011A8U,
4,0x5D0U,0x308U,0x20U,0x800011A8U,
2,0x5D0U,0x80001160U,
3,0x5D0U,0x20U,0x80001160U,
3,0x5D0U,0x308U,0x80001160U,
4,0x5D0U,0x308U,0x20U,0x80001160U,
2,0x5D0U,0xAU,
3,0x5D0U,0x20U,0xAU,
3,0x5D0U,0x308U,0xAU,
4,0x5D0U,0x308U,0x20U,0xAU,
2,0x5D0U,0x85U,
3,0x5D0U,0x20U,0x85U,
3,0x5D0U,0x308U,0x85U,
4,0x5D0U,0x308U,0x20U,0x85U,
2,0x5D0U,0x17D6U,
3,0x5D0U,0x20U,0x800017D6U,
3,0x5D0U,0x308U,0x17D6U,
4,0x5D0U,0x308U,0x20U,0x800017D6U,
2,0x5D0U,0x30U,
3,0x5D0U,0x20U,0x80000030U,
3,0x5D0U,0x308U,0x30U,
4,0x5D0U,0x308U,0x20U,0x80000030U,
2,0x5D0U,0x80002329U,
3,0x5D0U,0x20U,0x80002329U,
3,0x5D0U,0x308U,0x80002329U,
4,0x5D0U,0x308U,0x20U,0x80002329U,
2,0x5D0U,0x25U,
3,0x5D0U,0x20U,0x80000025U,
3,0x5D0U,0x308U,0x25U,
4,0x5D0U,0x308U,0x20U,0x80000025U,
2,0x5D0U,0x24U,
3,0x5D0U,0x20U,0x80000024U,
3,0x5D0U,0x308U,0x24U,
4,0x5D0U,0x308U,0x20U,0x80000024U,
2,0x5D0U,0x22U,
3,0x5D0U,0x20U,0x80000022U,
3,0x5D0U,0x308U,0x22U,
4,0x5D0U,0x308U,0x20U,0x80000022U,
2,0x5D0U,0x20U,
3,0x5D0U,0x20U,0x20U,
3,0x5D0U,0x308U,0x20U,
4,0x5D0U,0x308U,0x20U,0x20U,
2,0x5D0U,0x2FU,
3,0x5D0U,0x20U,0x2FU,
3,0x5D0U,0x308U,0x2FU,
4,0x5D0U,0x308U,0x20U,0x2FU,
2,0x5D0U,0x2060U,
3,0x5D0U,0x20U,0x2060U,
3,0x5D0U,0x308U,0x2060U,
4,0x5D0U,0x308U,0x20U,0x2060U,
2,0x5D0U,0x200BU,
3,0x5D0U,0x20U,0x200BU,
3,0x5D0U,0x308U,0x200BU,
4,0x5D0U,0x308U,0x20U,0x200BU,
2,0x5D0U,0x8001F1E6U,
3,0x5D0U,0x20U,0x8001F1E6U,
3,0x5D0U,0x308U,0x8001F1E6U,
4,0x5D0U,0x308U,0x20U,0x8001F1E6U,
2,0x5D0U,0x8000261DU,
3,0x5D0U,0x20U,0x8000261DU,
3,0x5D0U,0x308U,0x8000261DU,
4,0x5D0U,0x308U,0x20U,0x8000261DU,
2,0x5D0U,0x8001F3FBU,
3,0x5D0U,0x20U,0x8001F3FBU,
3,0x5D0U,0x308U,0x8001F3FBU,
4,0x5D0U,0x308U,0x20U,0x8001F3FBU,
2,0x5D0U,0x29U,
3,0x5D0U,0x20U,0x29U,
3,0x5D0U,0x308U,0x29U,
4,0x5D0U,0x308U,0x20U,0x29U,
2,0x5D0U,0x28U,
3,0x5D0U,0x20U,0x80000028U,
3,0x5D0U,0x308U,0x28U,
4,0x5D0U,0x308U,0x20U,0x80000028U,
2,0x5D0U,0x1U,
3,0x5D0U,0x20U,0x80000001U,
3,0x5D0U,0x308U,0x1U,
4,0x5D0U,0x308U,0x20U,0x80000001U,
2,0x5D0U,0x200DU,
3,0x5D0U,0x20U,0x8000200DU,
3,0x5D0U,0x308U,0x200DU,
4,0x5D0U,0x308U,0x20U,0x8000200DU,
2,0x5D0U,0xA7U,
3,0x5D0U,0x20U,0x800000A7U,
3,0x5D0U,0x308U,0xA7U,
4,0x5D0U,0x308U,0x20U,0x800000A7U,
2,0x5D0U,0x50005U,
3,0x5D0U,0x20U,0x80050005U,
3,0x5D0U,0x308U,0x50005U,
4,0x5D0U,0x308U,0x20U,0x80050005U,
2,0x5D0U,0xE01U,
3,0x5D0U,0x20U,0x80000E01U,
3,0x5D0U,0x308U,0xE01U,
4,0x5D0U,0x308U,0x20U,0x80000E01U,
2,0x5D0U,0x3041U,
3,0x5D0U,0x20U,0x80003041U,
3,0x5D0U,0x308U,0x3041U,
4,0x5D0U,0x308U,0x20U,0x80003041U,
2,0x2DU,0x80000023U,
3,0x2DU,0x20U,0x80000023U,
3,0x2DU,0x308U,0x80000023U,
4,0x2DU,0x308U,0x20U,0x80000023U,
2,0x2DU,0x80002014U,
3,0x2DU,0x20U,0x80002014U,
3,0x2DU,0x308U,0x80002014U,
4,0x2DU,0x308U,0x20U,0x80002014U,
2,0x2DU,0x9U,
3,0x2DU,0x20U,0x80000009U,
3,0x2DU,0x308U,0x9U,
4,0x2DU,0x308U,0x20U,0x80000009U,
2,0x2DU,0x800000B4U,
3,0x2DU,0x20U,0x800000B4U,
3,0x2DU,0x308U,0x800000B4U,
4,0x2DU,0x308U,0x20U,0x800000B4U,
2,0x2DU,0xBU,
3,0x2DU,0x20U,0xBU,
3,0x2DU,0x308U,0xBU,
4,0x2DU,0x308U,0x20U,0xBU,
2,0x2DU,0x8000FFFCU,
3,0x2DU,0x20U,0x8000FFFCU,
3,0x2DU,0x308U,0x8000FFFCU,
4,0x2DU,0x308U,0x20U,0x8000FFFCU,
2,0x2DU,0x7DU,
3,0x2DU,0x20U,0x7DU,
3,0x2DU,0x308U,0x7DU,
4,0x2DU,0x308U,0x20U,0x7DU,
2,0x2DU,0xDU,
3,0x2DU,0x20U,0xDU,
3,0x2DU,0x308U,0xDU,
4,0x2DU,0x308U,0x20U,0xDU,
2,0x2DU,0x21U,
3,0x2DU,0x20U,0x21U,
3,0x2DU,0x308U,0x21U,
4,0x2DU,0x308U,0x20U,0x21U,
2,0x2DU,0x800000A0U,
3,0x2DU,0x20U,0x800000A0U,
3,0x2DU,0x308U,0x800000A0U,
4,0x2DU,0x308U,0x20U,0x800000A0U,
2,0x2DU,0x8000AC00U,
3,0x2DU,0x20U,0x8000AC00U,
3,0x2DU,0x308U,0x8000AC00U,
4,0x2DU,0x308U,0x20U,0x8000AC00U,
2,0x2DU,0x8000AC01U,
3,0x2DU,0x20U,0x8000AC01U,
3,0x2DU,0x308U,0x8000AC01U,
4,0x2DU,0x308U,0x20U,0x8000AC01U,
2,0x2DU,0x800005D0U,
3,0x2DU,0x20U,0x800005D0U,
3,0x2DU,0x308U,0x800005D0U,
4,0x2DU,0x308U,0x20U,0x800005D0U,
2,0x2DU,0x2DU,
3,0x2DU,0x20U,0x8000002DU,
3,0x2DU,0x308U,0x2DU,
4,0x2DU,0x308U,0x20U,0x8000002DU,
2,0x2DU,0x8000231AU,
3,0x2DU,0x20U,0x8000231AU,
3,0x2DU,0x308U,0x8000231AU,
4,0x2DU,0x308U,0x20U,0x8000231AU,
2,0x2DU,0x2024U,
3,0x2DU,0x20U,0x80002024U,
3,0x2DU,0x308U,0x2024U,
4,0x2DU,0x308U,0x20U,0x80002024U,
2,0x2DU,0x2CU,
3,0x2DU,0x20U,0x2CU,
3,0x2DU,0x308U,0x2CU,
4,0x2DU,0x308U,0x20U,0x2CU,
2,0x2DU,0x80001100U,
3,0x2DU,0x20U,0x80001100U,
3,0x2DU,0x308U,0x80001100U,
4,0x2DU,0x308U,0x20U,0x80001100U,
2,0x2DU,0x800011A8U,
3,0x2DU,0x20U,0x800011A8U,
3,0x2DU,0x308U,0x800011A8U,
4,0x2DU,0x308U,0x20U,0x800011A8U,
2,0x2DU,0x80001160U,
3,0x2DU,0x20U,0x80001160U,
3,0x2DU,0x308U,0x80001160U,
4,0x2DU,0x308U,0x20U,0x80001160U,
2,0x2DU,0xAU,
3,0x2DU,0x20U,0xAU,
3,0x2DU,0x308U,0xAU,
4,0x2DU,0x308U,0x20U,0xAU,
2,0x2DU,0x85U,
3,0x2DU,0x20U,0x85U,
3,0x2DU,0x308U,0x85U,
4,0x2DU,0x308U,0x20U,0x85U,
2,0x2DU,0x17D6U,
3,0x2DU,0x20U,0x800017D6U,
3,0x2DU,0x308U,0x17D6U,
4,0x2DU,0x308U,0x20U,0x800017D6U,
2,0x2DU,0x30U,
3,0x2DU,0x20U,0x80000030U,
3,0x2DU,0x308U,0x30U,
4,0x2DU,0x308U,0x20U,0x80000030U,
2,0x2DU,0x80002329U,
3,0x2DU,0x20U,0x80002329U,
3,0x2DU,0x308U,0x80002329U,
4,0x2DU,0x308U,0x20U,0x80002329U,
2,0x2DU,0x80000025U,
3,0x2DU,0x20U,0x80000025U,
3,0x2DU,0x308U,0x80000025U,
4,0x2DU,0x308U,0x20U,0x80000025U,
2,0x2DU,0x80000024U,
3,0x2DU,0x20U,0x80000024U,
3,0x2DU,0x308U,0x80000024U,
4,0x2DU,0x308U,0x20U,0x80000024U,
2,0x2DU,0x22U,
3,0x2DU,0x20U,0x80000022U,
3,0x2DU,0x308U,0x22U,
4,0x2DU,0x308U,0x20U,0x80000022U,
2,0x2DU,0x20U,
3,0x2DU,0x20U,0x20U,
3,0x2DU,0x308U,0x20U,
4,0x2DU,0x308U,0x20U,0x20U,
2,0x2DU,0x2FU,
3,0x2DU,0x20U,0x2FU,
3,0x2DU,0x308U,0x2FU,
4,0x2DU,0x308U,0x20U,0x2FU,
2,0x2DU,0x2060U,
3,0x2DU,0x20U,0x2060U,
3,0x2DU,0x308U,0x2060U,
4,0x2DU,0x308U,0x20U,0x2060U,
2,0x2DU,0x200BU,
3,0x2DU,0x20U,0x200BU,
3,0x2DU,0x308U,0x200BU,
4,0x2DU,0x308U,0x20U,0x200BU,
2,0x2DU,0x8001F1E6U,
3,0x2DU,0x20U,0x8001F1E6U,
3,0x2DU,0x308U,0x8001F1E6U,
4,0x2DU,0x308U,0x20U,0x8001F1E6U,
2,0x2DU,0x8000261DU,
3,0x2DU,0x20U,0x8000261DU,
3,0x2DU,0x308U,0x8000261DU,
4,0x2DU,0x308U,0x20U,0x8000261DU,
2,0x2DU,0x8001F3FBU,
3,0x2DU,0x20U,0x8001F3FBU,
3,0x2DU,0x308U,0x8001F3FBU,
4,0x2DU,0x308U,0x20U,0x8001F3FBU,
2,0x2DU,0x29U,
3,0x2DU,0x20U,0x29U,
3,0x2DU,0x308U,0x29U,
4,0x2DU,0x308U,0x20U,0x29U,
2,0x2DU,0x80000028U,
3,0x2DU,0x20U,0x80000028U,
3,0x2DU,0x308U,0x80000028U,
4,0x2DU,0x308U,0x20U,0x80000028U,
2,0x2DU,0x1U,
3,0x2DU,0x20U,0x80000001U,
3,0x2DU,0x308U,0x1U,
4,0x2DU,0x308U,0x20U,0x80000001U,
2,0x2DU,0x200DU,
3,0x2DU,0x20U,0x8000200DU,
3,0x2DU,0x308U,0x200DU,
4,0x2DU,0x308U,0x20U,0x8000200DU,
2,0x2DU,0x800000A7U,
3,0x2DU,0x20U,0x800000A7U,
3,0x2DU,0x308U,0x800000A7U,
4,0x2DU,0x308U,0x20U,0x800000A7U,
2,0x2DU,0x80050005U,
3,0x2DU,0x20U,0x80050005U,
3,0x2DU,0x308U,0x80050005U,
4,0x2DU,0x308U,0x20U,0x80050005U,
2,0x2DU,0x80000E01U,
3,0x2DU,0x20U,0x80000E01U,
3,0x2DU,0x308U,0x80000E01U,
4,0x2DU,0x308U,0x20U,0x80000E01U,
2,0x2DU,0x3041U,
3,0x2DU,0x20U,0x80003041U,
3,0x2DU,0x308U,0x3041U,
4,0x2DU,0x308U,0x20U,0x80003041U,
2,0x231AU,0x80000023U,
3,0x231AU,0x20U,0x80000023U,
3,0x231AU,0x308U,0x80000023U,
4,0x231AU,0x308U,0x20U,0x80000023U,
2,0x231AU,0x80002014U,
3,0x231AU,0x20U,0x80002014U,
3,0x231AU,0x308U,0x80002014U,
4,0x231AU,0x308U,0x20U,0x80002014U,
2,0x231AU,0x9U,
3,0x231AU,0x20U,0x80000009U,
3,0x231AU,0x308U,0x9U,
4,0x231AU,0x308U,0x20U,0x80000009U,
2,0x231AU,0x800000B4U,
3,0x231AU,0x20U,0x800000B4U,
3,0x231AU,0x308U,0x800000B4U,
4,0x231AU,0x308U,0x20U,0x800000B4U,
2,0x231AU,0xBU,
3,0x231AU,0x20U,0xBU,
3,0x231AU,0x308U,0xBU,
4,0x231AU,0x308U,0x20U,0xBU,
2,0x231AU,0x8000FFFCU,
3,0x231AU,0x20U,0x8000FFFCU,
3,0x231AU,0x308U,0x8000FFFCU,
4,0x231AU,0x308U,0x20U,0x8000FFFCU,
2,0x231AU,0x7DU,
3,0x231AU,0x20U,0x7DU,
3,0x231AU,0x308U,0x7DU,
4,0x231AU,0x308U,0x20U,0x7DU,
2,0x231AU,0xDU,
3,0x231AU,0x20U,0xDU,
3,0x231AU,0x308U,0xDU,
4,0x231AU,0x308U,0x20U,0xDU,
2,0x231AU,0x21U,
3,0x231AU,0x20U,0x21U,
3,0x231AU,0x308U,0x21U,
4,0x231AU,0x308U,0x20U,0x21U,
2,0x231AU,0xA0U,
3,0x231AU,0x20U,0x800000A0U,
3,0x231AU,0x308U,0xA0U,
4,0x231AU,0x308U,0x20U,0x800000A0U,
2,0x231AU,0x8000AC00U,
3,0x231AU,0x20U,0x8000AC00U,
3,0x231AU,0x308U,0x8000AC00U,
4,0x231AU,0x308U,0x20U,0x8000AC00U,
2,0x231AU,0x8000AC01U,
3,0x231AU,0x20U,0x8000AC01U,
3,0x231AU,0x308U,0x8000AC01U,
4,0x231AU,0x308U,0x20U,0x8000AC01U,
2,0x231AU,0x800005D0U,
3,0x231AU,0x20U,0x800005D0U,
3,0x231AU,0x308U,0x800005D0U,
4,0x231AU,0x308U,0x20U,0x800005D0U,
2,0x231AU,0x2DU,
3,0x231AU,0x20U,0x8000002DU,
3,0x231AU,0x308U,0x2DU,
4,0x231AU,0x308U,0x20U,0x8000002DU,
2,0x231AU,0x8000231AU,
3,0x231AU,0x20U,0x8000231AU,
3,0x231AU,0x308U,0x8000231AU,
4,0x231AU,0x308U,0x20U,0x8000231AU,
2,0x231AU,0x2024U,
3,0x231AU,0x20U,0x80002024U,
3,0x231AU,0x308U,0x2024U,
4,0x231AU,0x308U,0x20U,0x80002024U,
2,0x231AU,0x2CU,
3,0x231AU,0x20U,0x2CU,
3,0x231AU,0x308U,0x2CU,
4,0x231AU,0x308U,0x20U,0x2CU,
2,0x231AU,0x80001100U,
3,0x231AU,0x20U,0x80001100U,
3,0x231AU,0x308U,0x80001100U,
4,0x231AU,0x308U,0x20U,0x80001100U,
2,0x231AU,0x800011A8U,
3,0x231AU,0x20U,0x800011A8U,
3,0x231AU,0x308U,0x800011A8U,
4,0x231AU,0x308U,0x20U,0x800011A8U,
2,0x231AU,0x80001160U,
3,0x231AU,0x20U,0x80001160U,
3,0x231AU,0x308U,0x80001160U,
4,0x231AU,0x308U,0x20U,0x80001160U,
2,0x231AU,0xAU,
3,0x231AU,0x20U,0xAU,
3,0x231AU,0x308U,0xAU,
4,0x231AU,0x308U,0x20U,0xAU,
2,0x231AU,0x85U,
3,0x231AU,0x20U,0x85U,
3,0x231AU,0x308U,0x85U,
4,0x231AU,0x308U,0x20U,0x85U,
2,0x231AU,0x17D6U,
3,0x231AU,0x20U,0x800017D6U,
3,0x231AU,0x308U,0x17D6U,
4,0x231AU,0x308U,0x20U,0x800017D6U,
2,0x231AU,0x80000030U,
3,0x231AU,0x20U,0x80000030U,
3,0x231AU,0x308U,0x80000030U,
4,0x231AU,0x308U,0x20U,0x80000030U,
2,0x231AU,0x80002329U,
3,0x231AU,0x20U,0x80002329U,
3,0x231AU,0x308U,0x80002329U,
4,0x231AU,0x308U,0x20U,0x80002329U,
2,0x231AU,0x25U,
3,0x231AU,0x20U,0x80000025U,
3,0x231AU,0x308U,0x25U,
4,0x231AU,0x308U,0x20U,0x80000025U,
2,0x231AU,0x80000024U,
3,0x231AU,0x20U,0x80000024U,
3,0x231AU,0x308U,0x80000024U,
4,0x231AU,0x308U,0x20U,0x80000024U,
2,0x231AU,0x22U,
3,0x231AU,0x20U,0x80000022U,
3,0x231AU,0x308U,0x22U,
4,0x231AU,0x308U,0x20U,0x80000022U,
2,0x231AU,0x20U,
3,0x231AU,0x20U,0x20U,
3,0x231AU,0x308U,0x20U,
4,0x231AU,0x308U,0x20U,0x20U,
2,0x231AU,0x2FU,
3,0x231AU,0x20U,0x2FU,
3,0x231AU,0x308U,0x2FU,
4,0x231AU,0x308U,0x20U,0x2FU,
2,0x231AU,0x2060U,
3,0x231AU,0x20U,0x2060U,
3,0x231AU,0x308U,0x2060U,
4,0x231AU,0x308U,0x20U,0x2060U,
2,0x231AU,0x200BU,
3,0x231AU,0x20U,0x200BU,
3,0x231AU,0x308U,0x200BU,
4,0x231AU,0x308U,0x20U,0x200BU,
2,0x231AU,0x8001F1E6U,
3,0x231AU,0x20U,0x8001F1E6U,
3,0x231AU,0x308U,0x8001F1E6U,
4,0x231AU,0x308U,0x20U,0x8001F1E6U,
2,0x231AU,0x8000261DU,
3,0x231AU,0x20U,0x8000261DU,
3,0x231AU,0x308U,0x8000261DU,
4,0x231AU,0x308U,0x20U,0x8000261DU,
2,0x231AU,0x8001F3FBU,
3,0x231AU,0x20U,0x8001F3FBU,
3,0x231AU,0x308U,0x8001F3FBU,
4,0x231AU,0x308U,0x20U,0x8001F3FBU,
2,0x231AU,0x29U,
3,0x231AU,0x20U,0x29U,
3,0x231AU,0x308U,0x29U,
4,0x231AU,0x308U,0x20U,0x29U,
2,0x231AU,0x80000028U,
3,0x231AU,0x20U,0x80000028U,
3,0x231AU,0x308U,0x80000028U,
4,0x231AU,0x308U,0x20U,0x80000028U,
2,0x231AU,0x1U,
3,0x231AU,0x20U,0x80000001U,
3,0x231AU,0x308U,0x1U,
4,0x231AU,0x308U,0x20U,0x80000001U,
2,0x231AU,0x200DU,
3,0x231AU,0x20U,0x8000200DU,
3,0x231AU,0x308U,0x200DU,
4,0x231AU,0x308U,0x20U,0x8000200DU,
2,0x231AU,0x800000A7U,
3,0x231AU,0x20U,0x800000A7U,
3,0x231AU,0x308U,0x800000A7U,
4,0x231AU,0x308U,0x20U,0x800000A7U,
2,0x231AU,0x80050005U,
3,0x231AU,0x20U,0x80050005U,
3,0x231AU,0x308U,0x80050005U,
4,0x231AU,0x308U,0x20U,0x80050005U,
2,0x231AU,0x80000E01U,
3,0x231AU,0x20U,0x80000E01U,
3,0x231AU,0x308U,0x80000E01U,
4,0x231AU,0x308U,0x20U,0x80000E01U,
2,0x231AU,0x3041U,
3,0x231AU,0x20U,0x80003041U,
3,0x231AU,0x308U,0x3041U,
4,0x231AU,0x308U,0x20U,0x80003041U,
2,0x2024U,0x80000023U,
3,0x2024U,0x20U,0x80000023U,
3,0x2024U,0x308U,0x80000023U,
4,0x2024U,0x308U,0x20U,0x80000023U,
2,0x2024U,0x80002014U,
3,0x2024U,0x20U,0x80002014U,
3,0x2024U,0x308U,0x80002014U,
4,0x2024U,0x308U,0x20U,0x80002014U,
2,0x2024U,0x9U,
3,0x2024U,0x20U,0x80000009U,
3,0x2024U,0x308U,0x9U,
4,0x2024U,0x308U,0x20U,0x80000009U,
2,0x2024U,0x800000B4U,
3,0x2024U,0x20U,0x800000B4U,
3,0x2024U,0x308U,0x800000B4U,
4,0x2024U,0x308U,0x20U,0x800000B4U,
2,0x2024U,0xBU,
3,0x2024U,0x20U,0xBU,
3,0x2024U,0x308U,0xBU,
4,0x2024U,0x308U,0x20U,0xBU,
2,0x2024U,0x8000FFFCU,
3,0x2024U,0x20U,0x8000FFFCU,
3,0x2024U,0x308U,0x8000FFFCU,
4,0x2024U,0x308U,0x20U,0x8000FFFCU,
2,0x2024U,0x7DU,
3,0x2024U,0x20U,0x7DU,
3,0x2024U,0x308U,0x7DU,
4,0x2024U,0x308U,0x20U,0x7DU,
2,0x2024U,0xDU,
3,0x2024U,0x20U,0xDU,
3,0x2024U,0x308U,0xDU,
4,0x2024U,0x308U,0x20U,0xDU,
2,0x2024U,0x21U,
3,0x2024U,0x20U,0x21U,
3,0x2024U,0x308U,0x21U,
4,0x2024U,0x308U,0x20U,0x21U,
2,0x2024U,0xA0U,
3,0x2024U,0x20U,0x800000A0U,
3,0x2024U,0x308U,0xA0U,
4,0x2024U,0x308U,0x20U,0x800000A0U,
2,0x2024U,0x8000AC00U,
3,0x2024U,0x20U,0x8000AC00U,
3,0x2024U,0x308U,0x8000AC00U,
4,0x2024U,0x308U,0x20U,0x8000AC00U,
2,0x2024U,0x8000AC01U,
3,0x2024U,0x20U,0x8000AC01U,
3,0x2024U,0x308U,0x8000AC01U,
4,0x2024U,0x308U,0x20U,0x8000AC01U,
2,0x2024U,0x800005D0U,
3,0x2024U,0x20U,0x800005D0U,
3,0x2024U,0x308U,0x800005D0U,
4,0x2024U,0x308U,0x20U,0x800005D0U,
2,0x2024U,0x2DU,
3,0x2024U,0x20U,0x8000002DU,
3,0x2024U,0x308U,0x2DU,
4,0x2024U,0x308U,0x20U,0x8000002DU,
2,0x2024U,0x8000231AU,
3,0x2024U,0x20U,0x8000231AU,
3,0x2024U,0x308U,0x8000231AU,
4,0x2024U,0x308U,0x20U,0x8000231AU,
2,0x2024U,0x2024U,
3,0x2024U,0x20U,0x80002024U,
3,0x2024U,0x308U,0x2024U,
4,0x2024U,0x308U,0x20U,0x80002024U,
2,0x2024U,0x2CU,
3,0x2024U,0x20U,0x2CU,
3,0x2024U,0x308U,0x2CU,
4,0x2024U,0x308U,0x20U,0x2CU,
2,0x2024U,0x80001100U,
3,0x2024U,0x20U,0x80001100U,
3,0x2024U,0x308U,0x80001100U,
4,0x2024U,0x308U,0x20U,0x80001100U,
2,0x2024U,0x800011A8U,
3,0x2024U,0x20U,0x800011A8U,
3,0x2024U,0x308U,0x800011A8U,
4,0x2024U,0x308U,0x20U,0x800011A8U,
2,0x2024U,0x80001160U,
3,0x2024U,0x20U,0x80001160U,
3,0x2024U,0x308U,0x80001160U,
4,0x2024U,0x308U,0x20U,0x80001160U,
2,0x2024U,0xAU,
3,0x2024U,0x20U,0xAU,
3,0x2024U,0x308U,0xAU,
4,0x2024U,0x308U,0x20U,0xAU,
2,0x2024U,0x85U,
3,0x2024U,0x20U,0x85U,
3,0x2024U,0x308U,0x85U,
4,0x2024U,0x308U,0x20U,0x85U,
2,0x2024U,0x17D6U,
3,0x2024U,0x20U,0x800017D6U,
3,0x2024U,0x308U,0x17D6U,
4,0x2024U,0x308U,0x20U,0x800017D6U,
2,0x2024U,0x80000030U,
3,0x2024U,0x20U,0x80000030U,
3,0x2024U,0x308U,0x80000030U,
4,0x2024U,0x308U,0x20U,0x80000030U,
2,0x2024U,0x80002329U,
3,0x2024U,0x20U,0x80002329U,
3,0x2024U,0x308U,0x80002329U,
4,0x2024U,0x308U,0x20U,0x80002329U,
2,0x2024U,0x80000025U,
3,0x2024U,0x20U,0x80000025U,
3,0x2024U,0x308U,0x80000025U,
4,0x2024U,0x308U,0x20U,0x80000025U,
2,0x2024U,0x80000024U,
3,0x2024U,0x20U,0x80000024U,
3,0x2024U,0x308U,0x80000024U,
4,0x2024U,0x308U,0x20U,0x80000024U,
2,0x2024U,0x22U,
3,0x2024U,0x20U,0x80000022U,
3,0x2024U,0x308U,0x22U,
4,0x2024U,0x308U,0x20U,0x80000022U,
2,0x2024U,0x20U,
3,0x2024U,0x20U,0x20U,
3,0x2024U,0x308U,0x20U,
4,0x2024U,0x308U,0x20U,0x20U,
2,0x2024U,0x2FU,
3,0x2024U,0x20U,0x2FU,
3,0x2024U,0x308U,0x2FU,
4,0x2024U,0x308U,0x20U,0x2FU,
2,0x2024U,0x2060U,
3,0x2024U,0x20U,0x2060U,
3,0x2024U,0x308U,0x2060U,
4,0x2024U,0x308U,0x20U,0x2060U,
2,0x2024U,0x200BU,
3,0x2024U,0x20U,0x200BU,
3,0x2024U,0x308U,0x200BU,
4,0x2024U,0x308U,0x20U,0x200BU,
2,0x2024U,0x8001F1E6U,
3,0x2024U,0x20U,0x8001F1E6U,
3,0x2024U,0x308U,0x8001F1E6U,
4,0x2024U,0x308U,0x20U,0x8001F1E6U,
2,0x2024U,0x8000261DU,
3,0x2024U,0x20U,0x8000261DU,
3,0x2024U,0x308U,0x8000261DU,
4,0x2024U,0x308U,0x20U,0x8000261DU,
2,0x2024U,0x8001F3FBU,
3,0x2024U,0x20U,0x8001F3FBU,
3,0x2024U,0x308U,0x8001F3FBU,
4,0x2024U,0x308U,0x20U,0x8001F3FBU,
2,0x2024U,0x29U,
3,0x2024U,0x20U,0x29U,
3,0x2024U,0x308U,0x29U,
4,0x2024U,0x308U,0x20U,0x29U,
2,0x2024U,0x80000028U,
3,0x2024U,0x20U,0x80000028U,
3,0x2024U,0x308U,0x80000028U,
4,0x2024U,0x308U,0x20U,0x80000028U,
2,0x2024U,0x1U,
3,0x2024U,0x20U,0x80000001U,
3,0x2024U,0x308U,0x1U,
4,0x2024U,0x308U,0x20U,0x80000001U,
2,0x2024U,0x200DU,
3,0x2024U,0x20U,0x8000200DU,
3,0x2024U,0x308U,0x200DU,
4,0x2024U,0x308U,0x20U,0x8000200DU,
2,0x2024U,0x800000A7U,
3,0x2024U,0x20U,0x800000A7U,
3,0x2024U,0x308U,0x800000A7U,
4,0x2024U,0x308U,0x20U,0x800000A7U,
2,0x2024U,0x80050005U,
3,0x2024U,0x20U,0x80050005U,
3,0x2024U,0x308U,0x80050005U,
4,0x2024U,0x308U,0x20U,0x80050005U,
2,0x2024U,0x80000E01U,
3,0x2024U,0x20U,0x80000E01U,
3,0x2024U,0x308U,0x80000E01U,
4,0x2024U,0x308U,0x20U,0x80000E01U,
2,0x2024U,0x3041U,
3,0x2024U,0x20U,0x80003041U,
3,0x2024U,0x308U,0x3041U,
4,0x2024U,0x308U,0x20U,0x80003041U,
2,0x2CU,0x23U,
3,0x2CU,0x20U,0x80000023U,
3,0x2CU,0x308U,0x23U,
4,0x2CU,0x308U,0x20U,0x80000023U,
2,0x2CU,0x80002014U,
3,0x2CU,0x20U,0x80002014U,
3,0x2CU,0x308U,0x80002014U,
4,0x2CU,0x308U,0x20U,0x80002014U,
2,0x2CU,0x9U,
3,0x2CU,0x20U,0x80000009U,
3,0x2CU,0x308U,0x9U,
4,0x2CU,0x308U,0x20U,0x80000009U,
2,0x2CU,0x800000B4U,
3,0x2CU,0x20U,0x800000B4U,
3,0x2CU,0x308U,0x800000B4U,
4,0x2CU,0x308U,0x20U,0x800000B4U,
2,0x2CU,0xBU,
3,0x2CU,0x20U,0xBU,
3,0x2CU,0x308U,0xBU,
4,0x2CU,0x308U,0x20U,0xBU,
2,0x2CU,0x8000FFFCU,
3,0x2CU,0x20U,0x8000FFFCU,
3,0x2CU,0x308U,0x8000FFFCU,
4,0x2CU,0x308U,0x20U,0x8000FFFCU,
2,0x2CU,0x7DU,
3,0x2CU,0x20U,0x7DU,
3,0x2CU,0x308U,0x7DU,
4,0x2CU,0x308U,0x20U,0x7DU,
2,0x2CU,0xDU,
3,0x2CU,0x20U,0xDU,
3,0x2CU,0x308U,0xDU,
4,0x2CU,0x308U,0x20U,0xDU,
2,0x2CU,0x21U,
3,0x2CU,0x20U,0x21U,
3,0x2CU,0x308U,0x21U,
4,0x2CU,0x308U,0x20U,0x21U,
2,0x2CU,0xA0U,
3,0x2CU,0x20U,0x800000A0U,
3,0x2CU,0x308U,0xA0U,
4,0x2CU,0x308U,0x20U,0x800000A0U,
2,0x2CU,0x8000AC00U,
3,0x2CU,0x20U,0x8000AC00U,
3,0x2CU,0x308U,0x8000AC00U,
4,0x2CU,0x308U,0x20U,0x8000AC00U,
2,0x2CU,0x8000AC01U,
3,0x2CU,0x20U,0x8000AC01U,
3,0x2CU,0x308U,0x8000AC01U,
4,0x2CU,0x308U,0x20U,0x8000AC01U,
2,0x2CU,0x5D0U,
3,0x2CU,0x20U,0x800005D0U,
3,0x2CU,0x308U,0x5D0U,
4,0x2CU,0x308U,0x20U,0x800005D0U,
2,0x2CU,0x2DU,
3,0x2CU,0x20U,0x8000002DU,
3,0x2CU,0x308U,0x2DU,
4,0x2CU,0x308U,0x20U,0x8000002DU,
2,0x2CU,0x8000231AU,
3,0x2CU,0x20U,0x8000231AU,
3,0x2CU,0x308U,0x8000231AU,
4,0x2CU,0x308U,0x20U,0x8000231AU,
2,0x2CU,0x2024U,
3,0x2CU,0x20U,0x80002024U,
3,0x2CU,0x308U,0x2024U,
4,0x2CU,0x308U,0x20U,0x80002024U,
2,0x2CU,0x2CU,
3,0x2CU,0x20U,0x2CU,
3,0x2CU,0x308U,0x2CU,
4,0x2CU,0x308U,0x20U,0x2CU,
2,0x2CU,0x80001100U,
3,0x2CU,0x20U,0x80001100U,
3,0x2CU,0x308U,0x80001100U,
4,0x2CU,0x308U,0x20U,0x80001100U,
2,0x2CU,0x800011A8U,
3,0x2CU,0x20U,0x800011A8U,
3,0x2CU,0x308U,0x800011A8U,
4,0x2CU,0x308U,0x20U,0x800011A8U,
2,0x2CU,0x80001160U,
3,0x2CU,0x20U,0x80001160U,
3,0x2CU,0x308U,0x80001160U,
4,0x2CU,0x308U,0x20U,0x80001160U,
2,0x2CU,0xAU,
3,0x2CU,0x20U,0xAU,
3,0x2CU,0x308U,0xAU,
4,0x2CU,0x308U,0x20U,0xAU,
2,0x2CU,0x85U,
3,0x2CU,0x20U,0x85U,
3,0x2CU,0x308U,0x85U,
4,0x2CU,0x308U,0x20U,0x85U,
2,0x2CU,0x17D6U,
3,0x2CU,0x20U,0x800017D6U,
3,0x2CU,0x308U,0x17D6U,
4,0x2CU,0x308U,0x20U,0x800017D6U,
2,0x2CU,0x80000030U,
3,0x2CU,0x20U,0x80000030U,
3,0x2CU,0x308U,0x80000030U,
4,0x2CU,0x308U,0x20U,0x80000030U,
2,0x2CU,0x80002329U,
3,0x2CU,0x20U,0x80002329U,
3,0x2CU,0x308U,0x80002329U,
4,0x2CU,0x308U,0x20U,0x80002329U,
2,0x2CU,0x80000025U,
3,0x2CU,0x20U,0x80000025U,
3,0x2CU,0x308U,0x80000025U,
4,0x2CU,0x308U,0x20U,0x80000025U,
2,0x2CU,0x80000024U,
3,0x2CU,0x20U,0x80000024U,
3,0x2CU,0x308U,0x80000024U,
4,0x2CU,0x308U,0x20U,0x80000024U,
2,0x2CU,0x22U,
3,0x2CU,0x20U,0x80000022U,
3,0x2CU,0x308U,0x22U,
4,0x2CU,0x308U,0x20U,0x80000022U,
2,0x2CU,0x20U,
3,0x2CU,0x20U,0x20U,
3,0x2CU,0x308U,0x20U,
4,0x2CU,0x308U,0x20U,0x20U,
2,0x2CU,0x2FU,
3,0x2CU,0x20U,0x2FU,
3,0x2CU,0x308U,0x2FU,
4,0x2CU,0x308U,0x20U,0x2FU,
2,0x2CU,0x2060U,
3,0x2CU,0x20U,0x2060U,
3,0x2CU,0x308U,0x2060U,
4,0x2CU,0x308U,0x20U,0x2060U,
2,0x2CU,0x200BU,
3,0x2CU,0x20U,0x200BU,
3,0x2CU,0x308U,0x200BU,
4,0x2CU,0x308U,0x20U,0x200BU,
2,0x2CU,0x8001F1E6U,
3,0x2CU,0x20U,0x8001F1E6U,
3,0x2CU,0x308U,0x8001F1E6U,
4,0x2CU,0x308U,0x20U,0x8001F1E6U,
2,0x2CU,0x8000261DU,
3,0x2CU,0x20U,0x8000261DU,
3,0x2CU,0x308U,0x8000261DU,
4,0x2CU,0x308U,0x20U,0x8000261DU,
2,0x2CU,0x8001F3FBU,
3,0x2CU,0x20U,0x8001F3FBU,
3,0x2CU,0x308U,0x8001F3FBU,
4,0x2CU,0x308U,0x20U,0x8001F3FBU,
2,0x2CU,0x29U,
3,0x2CU,0x20U,0x29U,
3,0x2CU,0x308U,0x29U,
4,0x2CU,0x308U,0x20U,0x29U,
2,0x2CU,0x80000028U,
3,0x2CU,0x20U,0x80000028U,
3,0x2CU,0x308U,0x80000028U,
4,0x2CU,0x308U,0x20U,0x80000028U,
2,0x2CU,0x1U,
3,0x2CU,0x20U,0x80000001U,
3,0x2CU,0x308U,0x1U,
4,0x2CU,0x308U,0x20U,0x80000001U,
2,0x2CU,0x200DU,
3,0x2CU,0x20U,0x8000200DU,
3,0x2CU,0x308U,0x200DU,
4,0x2CU,0x308U,0x20U,0x8000200DU,
2,0x2CU,0xA7U,
3,0x2CU,0x20U,0x800000A7U,
3,0x2CU,0x308U,0xA7U,
4,0x2CU,0x308U,0x20U,0x800000A7U,
2,0x2CU,0x50005U,
3,0x2CU,0x20U,0x80050005U,
3,0x2CU,0x308U,0x50005U,
4,0x2CU,0x308U,0x20U,0x80050005U,
2,0x2CU,0xE01U,
3,0x2CU,0x20U,0x80000E01U,
3,0x2CU,0x308U,0xE01U,
4,0x2CU,0x308U,0x20U,0x80000E01U,
2,0x2CU,0x3041U,
3,0x2CU,0x20U,0x80003041U,
3,0x2CU,0x308U,0x3041U,
4,0x2CU,0x308U,0x20U,0x80003041U,
2,0x1100U,0x80000023U,
3,0x1100U,0x20U,0x80000023U,
3,0x1100U,0x308U,0x80000023U,
4,0x1100U,0x308U,0x20U,0x80000023U,
2,0x1100U,0x80002014U,
3,0x1100U,0x20U,0x80002014U,
3,0x1100U,0x308U,0x80002014U,
4,0x1100U,0x308U,0x20U,0x80002014U,
2,0x1100U,0x9U,
3,0x1100U,0x20U,0x80000009U,
3,0x1100U,0x308U,0x9U,
4,0x1100U,0x308U,0x20U,0x80000009U,
2,0x1100U,0x800000B4U,
3,0x1100U,0x20U,0x800000B4U,
3,0x1100U,0x308U,0x800000B4U,
4,0x1100U,0x308U,0x20U,0x800000B4U,
2,0x1100U,0xBU,
3,0x1100U,0x20U,0xBU,
3,0x1100U,0x308U,0xBU,
4,0x1100U,0x308U,0x20U,0xBU,
2,0x1100U,0x8000FFFCU,
3,0x1100U,0x20U,0x8000FFFCU,
3,0x1100U,0x308U,0x8000FFFCU,
4,0x1100U,0x308U,0x20U,0x8000FFFCU,
2,0x1100U,0x7DU,
3,0x1100U,0x20U,0x7DU,
3,0x1100U,0x308U,0x7DU,
4,0x1100U,0x308U,0x20U,0x7DU,
2,0x1100U,0xDU,
3,0x1100U,0x20U,0xDU,
3,0x1100U,0x308U,0xDU,
4,0x1100U,0x308U,0x20U,0xDU,
2,0x1100U,0x21U,
3,0x1100U,0x20U,0x21U,
3,0x1100U,0x308U,0x21U,
4,0x1100U,0x308U,0x20U,0x21U,
2,0x1100U,0xA0U,
3,0x1100U,0x20U,0x800000A0U,
3,0x1100U,0x308U,0xA0U,
4,0x1100U,0x308U,0x20U,0x800000A0U,
2,0x1100U,0xAC00U,
3,0x1100U,0x20U,0x8000AC00U,
3,0x1100U,0x308U,0xAC00U,
4,0x1100U,0x308U,0x20U,0x8000AC00U,
2,0x1100U,0xAC01U,
3,0x1100U,0x20U,0x8000AC01U,
3,0x1100U,0x308U,0xAC01U,
4,0x1100U,0x308U,0x20U,0x8000AC01U,
2,0x1100U,0x800005D0U,
3,0x1100U,0x20U,0x800005D0U,
3,0x1100U,0x308U,0x800005D0U,
4,0x1100U,0x308U,0x20U,0x800005D0U,
2,0x1100U,0x2DU,
3,0x1100U,0x20U,0x8000002DU,
3,0x1100U,0x308U,0x2DU,
4,0x1100U,0x308U,0x20U,0x8000002DU,
2,0x1100U,0x8000231AU,
3,0x1100U,0x20U,0x8000231AU,
3,0x1100U,0x308U,0x8000231AU,
4,0x1100U,0x308U,0x20U,0x8000231AU,
2,0x1100U,0x2024U,
3,0x1100U,0x20U,0x80002024U,
3,0x1100U,0x308U,0x2024U,
4,0x1100U,0x308U,0x20U,0x80002024U,
2,0x1100U,0x2CU,
3,0x1100U,0x20U,0x2CU,
3,0x1100U,0x308U,0x2CU,
4,0x1100U,0x308U,0x20U,0x2CU,
2,0x1100U,0x1100U,
3,0x1100U,0x20U,0x80001100U,
3,0x1100U,0x308U,0x1100U,
4,0x1100U,0x308U,0x20U,0x80001100U,
2,0x1100U,0x800011A8U,
3,0x1100U,0x20U,0x800011A8U,
3,0x1100U,0x308U,0x800011A8U,
4,0x1100U,0x308U,0x20U,0x800011A8U,
2,0x1100U,0x1160U,
3,0x1100U,0x20U,0x80001160U,
3,0x1100U,0x308U,0x1160U,
4,0x1100U,0x308U,0x20U,0x80001160U,
2,0x1100U,0xAU,
3,0x1100U,0x20U,0xAU,
3,0x1100U,0x308U,0xAU,
4,0x1100U,0x308U,0x20U,0xAU,
2,0x1100U,0x85U,
3,0x1100U,0x20U,0x85U,
3,0x1100U,0x308U,0x85U,
4,0x1100U,0x308U,0x20U,0x85U,
2,0x1100U,0x17D6U,
3,0x1100U,0x20U,0x800017D6U,
3,0x1100U,0x308U,0x17D6U,
4,0x1100U,0x308U,0x20U,0x800017D6U,
2,0x1100U,0x80000030U,
3,0x1100U,0x20U,0x80000030U,
3,0x1100U,0x308U,0x80000030U,
4,0x1100U,0x308U,0x20U,0x80000030U,
2,0x1100U,0x80002329U,
3,0x1100U,0x20U,0x80002329U,
3,0x1100U,0x308U,0x80002329U,
4,0x1100U,0x308U,0x20U,0x80002329U,
2,0x1100U,0x25U,
3,0x1100U,0x20U,0x80000025U,
3,0x1100U,0x308U,0x25U,
4,0x1100U,0x308U,0x20U,0x80000025U,
2,0x1100U,0x80000024U,
3,0x1100U,0x20U,0x80000024U,
3,0x1100U,0x308U,0x80000024U,
4,0x1100U,0x308U,0x20U,0x80000024U,
2,0x1100U,0x22U,
3,0x1100U,0x20U,0x80000022U,
3,0x1100U,0x308U,0x22U,
4,0x1100U,0x308U,0x20U,0x80000022U,
2,0x1100U,0x20U,
3,0x1100U,0x20U,0x20U,
3,0x1100U,0x308U,0x20U,
4,0x1100U,0x308U,0x20U,0x20U,
2,0x1100U,0x2FU,
3,0x1100U,0x20U,0x2FU,
3,0x1100U,0x308U,0x2FU,
4,0x1100U,0x308U,0x20U,0x2FU,
2,0x1100U,0x2060U,
3,0x1100U,0x20U,0x2060U,
3,0x1100U,0x308U,0x2060U,
4,0x1100U,0x308U,0x20U,0x2060U,
2,0x1100U,0x200BU,
3,0x1100U,0x20U,0x200BU,
3,0x1100U,0x308U,0x200BU,
4,0x1100U,0x308U,0x20U,0x200BU,
2,0x1100U,0x8001F1E6U,
3,0x1100U,0x20U,0x8001F1E6U,
3,0x1100U,0x308U,0x8001F1E6U,
4,0x1100U,0x308U,0x20U,0x8001F1E6U,
2,0x1100U,0x8000261DU,
3,0x1100U,0x20U,0x8000261DU,
3,0x1100U,0x308U,0x8000261DU,
4,0x1100U,0x308U,0x20U,0x8000261DU,
2,0x1100U,0x8001F3FBU,
3,0x1100U,0x20U,0x8001F3FBU,
3,0x1100U,0x308U,0x8001F3FBU,
4,0x1100U,0x308U,0x20U,0x8001F3FBU,
2,0x1100U,0x29U,
3,0x1100U,0x20U,0x29U,
3,0x1100U,0x308U,0x29U,
4,0x1100U,0x308U,0x20U,0x29U,
2,0x1100U,0x80000028U,
3,0x1100U,0x20U,0x80000028U,
3,0x1100U,0x308U,0x80000028U,
4,0x1100U,0x308U,0x20U,0x80000028U,
2,0x1100U,0x1U,
3,0x1100U,0x20U,0x80000001U,
3,0x1100U,0x308U,0x1U,
4,0x1100U,0x308U,0x20U,0x80000001U,
2,0x1100U,0x200DU,
3,0x1100U,0x20U,0x8000200DU,
3,0x1100U,0x308U,0x200DU,
4,0x1100U,0x308U,0x20U,0x8000200DU,
2,0x1100U,0x800000A7U,
3,0x1100U,0x20U,0x800000A7U,
3,0x1100U,0x308U,0x800000A7U,
4,0x1100U,0x308U,0x20U,0x800000A7U,
2,0x1100U,0x80050005U,
3,0x1100U,0x20U,0x80050005U,
3,0x1100U,0x308U,0x80050005U,
4,0x1100U,0x308U,0x20U,0x80050005U,
2,0x1100U,0x80000E01U,
3,0x1100U,0x20U,0x80000E01U,
3,0x1100U,0x308U,0x80000E01U,
4,0x1100U,0x308U,0x20U,0x80000E01U,
2,0x1100U,0x3041U,
3,0x1100U,0x20U,0x80003041U,
3,0x1100U,0x308U,0x3041U,
4,0x1100U,0x308U,0x20U,0x80003041U,
2,0x11A8U,0x80000023U,
3,0x11A8U,0x20U,0x80000023U,
3,0x11A8U,0x308U,0x80000023U,
4,0x11A8U,0x308U,0x20U,0x80000023U,
2,0x11A8U,0x80002014U,
3,0x11A8U,0x20U,0x80002014U,
3,0x11A8U,0x308U,0x80002014U,
4,0x11A8U,0x308U,0x20U,0x80002014U,
2,0x11A8U,0x9U,
3,0x11A8U,0x20U,0x80000009U,
3,0x11A8U,0x308U,0x9U,
4,0x11A8U,0x308U,0x20U,0x80000009U,
2,0x11A8U,0x800000B4U,
3,0x11A8U,0x20U,0x800000B4U,
3,0x11A8U,0x308U,0x800000B4U,
4,0x11A8U,0x308U,0x20U,0x800000B4U,
2,0x11A8U,0xBU,
3,0x11A8U,0x20U,0xBU,
3,0x11A8U,0x308U,0xBU,
4,0x11A8U,0x308U,0x20U,0xBU,
2,0x11A8U,0x8000FFFCU,
3,0x11A8U,0x20U,0x8000FFFCU,
3,0x11A8U,0x308U,0x8000FFFCU,
4,0x11A8U,0x308U,0x20U,0x8000FFFCU,
2,0x11A8U,0x7DU,
3,0x11A8U,0x20U,0x7DU,
3,0x11A8U,0x308U,0x7DU,
4,0x11A8U,0x308U,0x20U,0x7DU,
2,0x11A8U,0xDU,
3,0x11A8U,0x20U,0xDU,
3,0x11A8U,0x308U,0xDU,
4,0x11A8U,0x308U,0x20U,0xDU,
2,0x11A8U,0x21U,
3,0x11A8U,0x20U,0x21U,
3,0x11A8U,0x308U,0x21U,
4,0x11A8U,0x308U,0x20U,0x21U,
2,0x11A8U,0xA0U,
3,0x11A8U,0x20U,0x800000A0U,
3,0x11A8U,0x308U,0xA0U,
4,0x11A8U,0x308U,0x20U,0x800000A0U,
2,0x11A8U,0x8000AC00U,
3,0x11A8U,0x20U,0x8000AC00U,
3,0x11A8U,0x308U,0x8000AC00U,
4,0x11A8U,0x308U,0x20U,0x8000AC00U,
2,0x11A8U,0x8000AC01U,
3,0x11A8U,0x20U,0x8000AC01U,
3,0x11A8U,0x308U,0x8000AC01U,
4,0x11A8U,0x308U,0x20U,0x8000AC01U,
2,0x11A8U,0x800005D0U,
3,0x11A8U,0x20U,0x800005D0U,
3,0x11A8U,0x308U,0x800005D0U,
4,0x11A8U,0x308U,0x20U,0x800005D0U,
2,0x11A8U,0x2DU,
3,0x11A8U,0x20U,0x8000002DU,
3,0x11A8U,0x308U,0x2DU,
4,0x11A8U,0x308U,0x20U,0x8000002DU,
2,0x11A8U,0x8000231AU,
3,0x11A8U,0x20U,0x8000231AU,
3,0x11A8U,0x308U,0x8000231AU,
4,0x11A8U,0x308U,0x20U,0x8000231AU,
2,0x11A8U,0x2024U,
3,0x11A8U,0x20U,0x80002024U,
3,0x11A8U,0x308U,0x2024U,
4,0x11A8U,0x308U,0x20U,0x80002024U,
2,0x11A8U,0x2CU,
3,0x11A8U,0x20U,0x2CU,
3,0x11A8U,0x308U,0x2CU,
4,0x11A8U,0x308U,0x20U,0x2CU,
2,0x11A8U,0x80001100U,
3,0x11A8U,0x20U,0x80001100U,
3,0x11A8U,0x308U,0x80001100U,
4,0x11A8U,0x308U,0x20U,0x80001100U,
2,0x11A8U,0x11A8U,
3,0x11A8U,0x20U,0x800011A8U,
3,0x11A8U,0x308U,0x11A8U,
4,0x11A8U,0x308U,0x20U,0x800011A8U,
2,0x11A8U,0x80001160U,
3,0x11A8U,0x20U,0x80001160U,
3,0x11A8U,0x308U,0x80001160U,
4,0x11A8U,0x308U,0x20U,0x80001160U,
2,0x11A8U,0xAU,
3,0x11A8U,0x20U,0xAU,
3,0x11A8U,0x308U,0xAU,
4,0x11A8U,0x308U,0x20U,0xAU,
2,0x11A8U,0x85U,
3,0x11A8U,0x20U,0x85U,
3,0x11A8U,0x308U,0x85U,
4,0x11A8U,0x308U,0x20U,0x85U,
2,0x11A8U,0x17D6U,
3,0x11A8U,0x20U,0x800017D6U,
3,0x11A8U,0x308U,0x17D6U,
4,0x11A8U,0x308U,0x20U,0x800017D6U,
2,0x11A8U,0x80000030U,
3,0x11A8U,0x20U,0x80000030U,
3,0x11A8U,0x308U,0x80000030U,
4,0x11A8U,0x308U,0x20U,0x80000030U,
2,0x11A8U,0x80002329U,
3,0x11A8U,0x20U,0x80002329U,
3,0x11A8U,0x308U,0x80002329U,
4,0x11A8U,0x308U,0x20U,0x80002329U,
2,0x11A8U,0x25U,
3,0x11A8U,0x20U,0x80000025U,
3,0x11A8U,0x308U,0x25U,
4,0x11A8U,0x308U,0x20U,0x80000025U,
2,0x11A8U,0x80000024U,
3,0x11A8U,0x20U,0x80000024U,
3,0x11A8U,0x308U,0x80000024U,
4,0x11A8U,0x308U,0x20U,0x80000024U,
2,0x11A8U,0x22U,
3,0x11A8U,0x20U,0x80000022U,
3,0x11A8U,0x308U,0x22U,
4,0x11A8U,0x308U,0x20U,0x80000022U,
2,0x11A8U,0x20U,
3,0x11A8U,0x20U,0x20U,
3,0x11A8U,0x308U,0x20U,
4,0x11A8U,0x308U,0x20U,0x20U,
2,0x11A8U,0x2FU,
3,0x11A8U,0x20U,0x2FU,
3,0x11A8U,0x308U,0x2FU,
4,0x11A8U,0x308U,0x20U,0x2FU,
2,0x11A8U,0x2060U,
3,0x11A8U,0x20U,0x2060U,
3,0x11A8U,0x308U,0x2060U,
4,0x11A8U,0x308U,0x20U,0x2060U,
2,0x11A8U,0x200BU,
3,0x11A8U,0x20U,0x200BU,
3,0x11A8U,0x308U,0x200BU,
4,0x11A8U,0x308U,0x20U,0x200BU,
2,0x11A8U,0x8001F1E6U,
3,0x11A8U,0x20U,0x8001F1E6U,
3,0x11A8U,0x308U,0x8001F1E6U,
4,0x11A8U,0x308U,0x20U,0x8001F1E6U,
2,0x11A8U,0x8000261DU,
3,0x11A8U,0x20U,0x8000261DU,
3,0x11A8U,0x308U,0x8000261DU,
4,0x11A8U,0x308U,0x20U,0x8000261DU,
2,0x11A8U,0x8001F3FBU,
3,0x11A8U,0x20U,0x8001F3FBU,
3,0x11A8U,0x308U,0x8001F3FBU,
4,0x11A8U,0x308U,0x20U,0x8001F3FBU,
2,0x11A8U,0x29U,
3,0x11A8U,0x20U,0x29U,
3,0x11A8U,0x308U,0x29U,
4,0x11A8U,0x308U,0x20U,0x29U,
2,0x11A8U,0x80000028U,
3,0x11A8U,0x20U,0x80000028U,
3,0x11A8U,0x308U,0x80000028U,
4,0x11A8U,0x308U,0x20U,0x80000028U,
2,0x11A8U,0x1U,
3,0x11A8U,0x20U,0x80000001U,
3,0x11A8U,0x308U,0x1U,
4,0x11A8U,0x308U,0x20U,0x80000001U,
2,0x11A8U,0x200DU,
3,0x11A8U,0x20U,0x8000200DU,
3,0x11A8U,0x308U,0x200DU,
4,0x11A8U,0x308U,0x20U,0x8000200DU,
2,0x11A8U,0x800000A7U,
3,0x11A8U,0x20U,0x800000A7U,
3,0x11A8U,0x308U,0x800000A7U,
4,0x11A8U,0x308U,0x20U,0x800000A7U,
2,0x11A8U,0x80050005U,
3,0x11A8U,0x20U,0x80050005U,
3,0x11A8U,0x308U,0x80050005U,
4,0x11A8U,0x308U,0x20U,0x80050005U,
2,0x11A8U,0x80000E01U,
3,0x11A8U,0x20U,0x80000E01U,
3,0x11A8U,0x308U,0x80000E01U,
4,0x11A8U,0x308U,0x20U,0x80000E01U,
2,0x11A8U,0x3041U,
3,0x11A8U,0x20U,0x80003041U,
3,0x11A8U,0x308U,0x3041U,
4,0x11A8U,0x308U,0x20U,0x80003041U,
2,0x1160U,0x80000023U,
3,0x1160U,0x20U,0x80000023U,
3,0x1160U,0x308U,0x80000023U,
4,0x1160U,0x308U,0x20U,0x80000023U,
2,0x1160U,0x80002014U,
3,0x1160U,0x20U,0x80002014U,
3,0x1160U,0x308U,0x80002014U,
4,0x1160U,0x308U,0x20U,0x80002014U,
2,0x1160U,0x9U,
3,0x1160U,0x20U,0x80000009U,
3,0x1160U,0x308U,0x9U,
4,0x1160U,0x308U,0x20U,0x80000009U,
2,0x1160U,0x800000B4U,
3,0x1160U,0x20U,0x800000B4U,
3,0x1160U,0x308U,0x800000B4U,
4,0x1160U,0x308U,0x20U,0x800000B4U,
2,0x1160U,0xBU,
3,0x1160U,0x20U,0xBU,
3,0x1160U,0x308U,0xBU,
4,0x1160U,0x308U,0x20U,0xBU,
2,0x1160U,0x8000FFFCU,
3,0x1160U,0x20U,0x8000FFFCU,
3,0x1160U,0x308U,0x8000FFFCU,
4,0x1160U,0x308U,0x20U,0x8000FFFCU,
2,0x1160U,0x7DU,
3,0x1160U,0x20U,0x7DU,
3,0x1160U,0x308U,0x7DU,
4,0x1160U,0x308U,0x20U,0x7DU,
2,0x1160U,0xDU,
3,0x1160U,0x20U,0xDU,
3,0x1160U,0x308U,0xDU,
4,0x1160U,0x308U,0x20U,0xDU,
2,0x1160U,0x21U,
3,0x1160U,0x20U,0x21U,
3,0x1160U,0x308U,0x21U,
4,0x1160U,0x308U,0x20U,0x21U,
2,0x1160U,0xA0U,
3,0x1160U,0x20U,0x800000A0U,
3,0x1160U,0x308U,0xA0U,
4,0x1160U,0x308U,0x20U,0x800000A0U,
2,0x1160U,0x8000AC00U,
3,0x1160U,0x20U,0x8000AC00U,
3,0x1160U,0x308U,0x8000AC00U,
4,0x1160U,0x308U,0x20U,0x8000AC00U,
2,0x1160U,0x8000AC01U,
3,0x1160U,0x20U,0x8000AC01U,
3,0x1160U,0x308U,0x8000AC01U,
4,0x1160U,0x308U,0x20U,0x8000AC01U,
2,0x1160U,0x800005D0U,
3,0x1160U,0x20U,0x800005D0U,
3,0x1160U,0x308U,0x800005D0U,
4,0x1160U,0x308U,0x20U,0x800005D0U,
2,0x1160U,0x2DU,
3,0x1160U,0x20U,0x8000002DU,
3,0x1160U,0x308U,0x2DU,
4,0x1160U,0x308U,0x20U,0x8000002DU,
2,0x1160U,0x8000231AU,
3,0x1160U,0x20U,0x8000231AU,
3,0x1160U,0x308U,0x8000231AU,
4,0x1160U,0x308U,0x20U,0x8000231AU,
2,0x1160U,0x2024U,
3,0x1160U,0x20U,0x80002024U,
3,0x1160U,0x308U,0x2024U,
4,0x1160U,0x308U,0x20U,0x80002024U,
2,0x1160U,0x2CU,
3,0x1160U,0x20U,0x2CU,
3,0x1160U,0x308U,0x2CU,
4,0x1160U,0x308U,0x20U,0x2CU,
2,0x1160U,0x80001100U,
3,0x1160U,0x20U,0x80001100U,
3,0x1160U,0x308U,0x80001100U,
4,0x1160U,0x308U,0x20U,0x80001100U,
2,0x1160U,0x11A8U,
3,0x1160U,0x20U,0x800011A8U,
3,0x1160U,0x308U,0x11A8U,
4,0x1160U,0x308U,0x20U,0x800011A8U,
2,0x1160U,0x1160U,
3,0x1160U,0x20U,0x80001160U,
3,0x1160U,0x308U,0x1160U,
4,0x1160U,0x308U,0x20U,0x80001160U,
2,0x1160U,0xAU,
3,0x1160U,0x20U,0xAU,
3,0x1160U,0x308U,0xAU,
4,0x1160U,0x308U,0x20U,0xAU,
2,0x1160U,0x85U,
3,0x1160U,0x20U,0x85U,
3,0x1160U,0x308U,0x85U,
4,0x1160U,0x308U,0x20U,0x85U,
2,0x1160U,0x17D6U,
3,0x1160U,0x20U,0x800017D6U,
3,0x1160U,0x308U,0x17D6U,
4,0x1160U,0x308U,0x20U,0x800017D6U,
2,0x1160U,0x80000030U,
3,0x1160U,0x20U,0x80000030U,
3,0x1160U,0x308U,0x80000030U,
4,0x1160U,0x308U,0x20U,0x80000030U,
2,0x1160U,0x80002329U,
3,0x1160U,0x20U,0x80002329U,
3,0x1160U,0x308U,0x80002329U,
4,0x1160U,0x308U,0x20U,0x80002329U,
2,0x1160U,0x25U,
3,0x1160U,0x20U,0x80000025U,
3,0x1160U,0x308U,0x25U,
4,0x1160U,0x308U,0x20U,0x80000025U,
2,0x1160U,0x80000024U,
3,0x1160U,0x20U,0x80000024U,
3,0x1160U,0x308U,0x80000024U,
4,0x1160U,0x308U,0x20U,0x80000024U,
2,0x1160U,0x22U,
3,0x1160U,0x20U,0x80000022U,
3,0x1160U,0x308U,0x22U,
4,0x1160U,0x308U,0x20U,0x80000022U,
2,0x1160U,0x20U,
3,0x1160U,0x20U,0x20U,
3,0x1160U,0x308U,0x20U,
4,0x1160U,0x308U,0x20U,0x20U,
2,0x1160U,0x2FU,
3,0x1160U,0x20U,0x2FU,
3,0x1160U,0x308U,0x2FU,
4,0x1160U,0x308U,0x20U,0x2FU,
2,0x1160U,0x2060U,
3,0x1160U,0x20U,0x2060U,
3,0x1160U,0x308U,0x2060U,
4,0x1160U,0x308U,0x20U,0x2060U,
2,0x1160U,0x200BU,
3,0x1160U,0x20U,0x200BU,
3,0x1160U,0x308U,0x200BU,
4,0x1160U,0x308U,0x20U,0x200BU,
2,0x1160U,0x8001F1E6U,
3,0x1160U,0x20U,0x8001F1E6U,
3,0x1160U,0x308U,0x8001F1E6U,
4,0x1160U,0x308U,0x20U,0x8001F1E6U,
2,0x1160U,0x8000261DU,
3,0x1160U,0x20U,0x8000261DU,
3,0x1160U,0x308U,0x8000261DU,
4,0x1160U,0x308U,0x20U,0x8000261DU,
2,0x1160U,0x8001F3FBU,
3,0x1160U,0x20U,0x8001F3FBU,
3,0x1160U,0x308U,0x8001F3FBU,
4,0x1160U,0x308U,0x20U,0x8001F3FBU,
2,0x1160U,0x29U,
3,0x1160U,0x20U,0x29U,
3,0x1160U,0x308U,0x29U,
4,0x1160U,0x308U,0x20U,0x29U,
2,0x1160U,0x80000028U,
3,0x1160U,0x20U,0x80000028U,
3,0x1160U,0x308U,0x80000028U,
4,0x1160U,0x308U,0x20U,0x80000028U,
2,0x1160U,0x1U,
3,0x1160U,0x20U,0x80000001U,
3,0x1160U,0x308U,0x1U,
4,0x1160U,0x308U,0x20U,0x80000001U,
2,0x1160U,0x200DU,
3,0x1160U,0x20U,0x8000200DU,
3,0x1160U,0x308U,0x200DU,
4,0x1160U,0x308U,0x20U,0x8000200DU,
2,0x1160U,0x800000A7U,
3,0x1160U,0x20U,0x800000A7U,
3,0x1160U,0x308U,0x800000A7U,
4,0x1160U,0x308U,0x20U,0x800000A7U,
2,0x1160U,0x80050005U,
3,0x1160U,0x20U,0x80050005U,
3,0x1160U,0x308U,0x80050005U,
4,0x1160U,0x308U,0x20U,0x80050005U,
2,0x1160U,0x80000E01U,
3,0x1160U,0x20U,0x80000E01U,
3,0x1160U,0x308U,0x80000E01U,
4,0x1160U,0x308U,0x20U,0x80000E01U,
2,0x1160U,0x3041U,
3,0x1160U,0x20U,0x80003041U,
3,0x1160U,0x308U,0x3041U,
4,0x1160U,0x308U,0x20U,0x80003041U,
2,0xAU,0x80000023U,
3,0xAU,0x80000020U,0x80000023U,
3,0xAU,0x80000308U,0x23U,
4,0xAU,0x80000308U,0x20U,0x80000023U,
2,0xAU,0x80002014U,
3,0xAU,0x80000020U,0x80002014U,
3,0xAU,0x80000308U,0x80002014U,
4,0xAU,0x80000308U,0x20U,0x80002014U,
2,0xAU,0x80000009U,
3,0xAU,0x80000020U,0x80000009U,
3,0xAU,0x80000308U,0x9U,
4,0xAU,0x80000308U,0x20U,0x80000009U,
2,0xAU,0x800000B4U,
3,0xAU,0x80000020U,0x800000B4U,
3,0xAU,0x80000308U,0x800000B4U,
4,0xAU,0x80000308U,0x20U,0x800000B4U,
2,0xAU,0x8000000BU,
3,0xAU,0x80000020U,0xBU,
3,0xAU,0x80000308U,0xBU,
4,0xAU,0x80000308U,0x20U,0xBU,
2,0xAU,0x8000FFFCU,
3,0xAU,0x80000020U,0x8000FFFCU,
3,0xAU,0x80000308U,0x8000FFFCU,
4,0xAU,0x80000308U,0x20U,0x8000FFFCU,
2,0xAU,0x8000007DU,
3,0xAU,0x80000020U,0x7DU,
3,0xAU,0x80000308U,0x7DU,
4,0xAU,0x80000308U,0x20U,0x7DU,
2,0xAU,0x8000000DU,
3,0xAU,0x80000020U,0xDU,
3,0xAU,0x80000308U,0xDU,
4,0xAU,0x80000308U,0x20U,0xDU,
2,0xAU,0x80000021U,
3,0xAU,0x80000020U,0x21U,
3,0xAU,0x80000308U,0x21U,
4,0xAU,0x80000308U,0x20U,0x21U,
2,0xAU,0x800000A0U,
3,0xAU,0x80000020U,0x800000A0U,
3,0xAU,0x80000308U,0xA0U,
4,0xAU,0x80000308U,0x20U,0x800000A0U,
2,0xAU,0x8000AC00U,
3,0xAU,0x80000020U,0x8000AC00U,
3,0xAU,0x80000308U,0x8000AC00U,
4,0xAU,0x80000308U,0x20U,0x8000AC00U,
2,0xAU,0x8000AC01U,
3,0xAU,0x80000020U,0x8000AC01U,
3,0xAU,0x80000308U,0x8000AC01U,
4,0xAU,0x80000308U,0x20U,0x8000AC01U,
2,0xAU,0x800005D0U,
3,0xAU,0x80000020U,0x800005D0U,
3,0xAU,0x80000308U,0x5D0U,
4,0xAU,0x80000308U,0x20U,0x800005D0U,
2,0xAU,0x8000002DU,
3,0xAU,0x80000020U,0x8000002DU,
3,0xAU,0x80000308U,0x2DU,
4,0xAU,0x80000308U,0x20U,0x8000002DU,
2,0xAU,0x8000231AU,
3,0xAU,0x80000020U,0x8000231AU,
3,0xAU,0x80000308U,0x8000231AU,
4,0xAU,0x80000308U,0x20U,0x8000231AU,
2,0xAU,0x80002024U,
3,0xAU,0x80000020U,0x80002024U,
3,0xAU,0x80000308U,0x2024U,
4,0xAU,0x80000308U,0x20U,0x80002024U,
2,0xAU,0x8000002CU,
3,0xAU,0x80000020U,0x2CU,
3,0xAU,0x80000308U,0x2CU,
4,0xAU,0x80000308U,0x20U,0x2CU,
2,0xAU,0x80001100U,
3,0xAU,0x80000020U,0x80001100U,
3,0xAU,0x80000308U,0x80001100U,
4,0xAU,0x80000308U,0x20U,0x80001100U,
2,0xAU,0x800011A8U,
3,0xAU,0x80000020U,0x800011A8U,
3,0xAU,0x80000308U,0x800011A8U,
4,0xAU,0x80000308U,0x20U,0x800011A8U,
2,0xAU,0x80001160U,
3,0xAU,0x80000020U,0x80001160U,
3,0xAU,0x80000308U,0x80001160U,
4,0xAU,0x80000308U,0x20U,0x80001160U,
2,0xAU,0x8000000AU,
3,0xAU,0x80000020U,0xAU,
3,0xAU,0x80000308U,0xAU,
4,0xAU,0x80000308U,0x20U,0xAU,
2,0xAU,0x80000085U,
3,0xAU,0x80000020U,0x85U,
3,0xAU,0x80000308U,0x85U,
4,0xAU,0x80000308U,0x20U,0x85U,
2,0xAU,0x800017D6U,
3,0xAU,0x80000020U,0x800017D6U,
3,0xAU,0x80000308U,0x17D6U,
4,0xAU,0x80000308U,0x20U,0x800017D6U,
2,0xAU,0x80000030U,
3,0xAU,0x80000020U,0x80000030U,
3,0xAU,0x80000308U,0x30U,
4,0xAU,0x80000308U,0x20U,0x80000030U,
2,0xAU,0x80002329U,
3,0xAU,0x80000020U,0x80002329U,
3,0xAU,0x80000308U,0x80002329U,
4,0xAU,0x80000308U,0x20U,0x80002329U,
2,0xAU,0x80000025U,
3,0xAU,0x80000020U,0x80000025U,
3,0xAU,0x80000308U,0x25U,
4,0xAU,0x80000308U,0x20U,0x80000025U,
2,0xAU,0x80000024U,
3,0xAU,0x80000020U,0x80000024U,
3,0xAU,0x80000308U,0x24U,
4,0xAU,0x80000308U,0x20U,0x80000024U,
2,0xAU,0x80000022U,
3,0xAU,0x80000020U,0x80000022U,
3,0xAU,0x80000308U,0x22U,
4,0xAU,0x80000308U,0x20U,0x80000022U,
2,0xAU,0x80000020U,
3,0xAU,0x80000020U,0x20U,
3,0xAU,0x80000308U,0x20U,
4,0xAU,0x80000308U,0x20U,0x20U,
2,0xAU,0x8000002FU,
3,0xAU,0x80000020U,0x2FU,
3,0xAU,0x80000308U,0x2FU,
4,0xAU,0x80000308U,0x20U,0x2FU,
2,0xAU,0x80002060U,
3,0xAU,0x80000020U,0x2060U,
3,0xAU,0x80000308U,0x2060U,
4,0xAU,0x80000308U,0x20U,0x2060U,
2,0xAU,0x8000200BU,
3,0xAU,0x80000020U,0x200BU,
3,0xAU,0x80000308U,0x200BU,
4,0xAU,0x80000308U,0x20U,0x200BU,
2,0xAU,0x8001F1E6U,
3,0xAU,0x80000020U,0x8001F1E6U,
3,0xAU,0x80000308U,0x8001F1E6U,
4,0xAU,0x80000308U,0x20U,0x8001F1E6U,
2,0xAU,0x8000261DU,
3,0xAU,0x80000020U,0x8000261DU,
3,0xAU,0x80000308U,0x8000261DU,
4,0xAU,0x80000308U,0x20U,0x8000261DU,
2,0xAU,0x8001F3FBU,
3,0xAU,0x80000020U,0x8001F3FBU,
3,0xAU,0x80000308U,0x8001F3FBU,
4,0xAU,0x80000308U,0x20U,0x8001F3FBU,
2,0xAU,0x80000029U,
3,0xAU,0x80000020U,0x29U,
3,0xAU,0x80000308U,0x29U,
4,0xAU,0x80000308U,0x20U,0x29U,
2,0xAU,0x80000028U,
3,0xAU,0x80000020U,0x80000028U,
3,0xAU,0x80000308U,0x28U,
4,0xAU,0x80000308U,0x20U,0x80000028U,
2,0xAU,0x80000001U,
3,0xAU,0x80000020U,0x80000001U,
3,0xAU,0x80000308U,0x1U,
4,0xAU,0x80000308U,0x20U,0x80000001U,
2,0xAU,0x8000200DU,
3,0xAU,0x80000020U,0x8000200DU,
3,0xAU,0x80000308U,0x200DU,
4,0xAU,0x80000308U,0x20U,0x8000200DU,
2,0xAU,0x800000A7U,
3,0xAU,0x80000020U,0x800000A7U,
3,0xAU,0x80000308U,0xA7U,
4,0xAU,0x80000308U,0x20U,0x800000A7U,
2,0xAU,0x80050005U,
3,0xAU,0x80000020U,0x80050005U,
3,0xAU,0x80000308U,0x50005U,
4,0xAU,0x80000308U,0x20U,0x80050005U,
2,0xAU,0x80000E01U,
3,0xAU,0x80000020U,0x80000E01U,
3,0xAU,0x80000308U,0xE01U,
4,0xAU,0x80000308U,0x20U,0x80000E01U,
2,0xAU,0x80003041U,
3,0xAU,0x80000020U,0x80003041U,
3,0xAU,0x80000308U,0x3041U,
4,0xAU,0x80000308U,0x20U,0x80003041U,
2,0x85U,0x80000023U,
3,0x85U,0x80000020U,0x80000023U,
3,0x85U,0x80000308U,0x23U,
4,0x85U,0x80000308U,0x20U,0x80000023U,
2,0x85U,0x80002014U,
3,0x85U,0x80000020U,0x80002014U,
3,0x85U,0x80000308U,0x80002014U,
4,0x85U,0x80000308U,0x20U,0x80002014U,
2,0x85U,0x80000009U,
3,0x85U,0x80000020U,0x80000009U,
3,0x85U,0x80000308U,0x9U,
4,0x85U,0x80000308U,0x20U,0x80000009U,
2,0x85U,0x800000B4U,
3,0x85U,0x80000020U,0x800000B4U,
3,0x85U,0x80000308U,0x800000B4U,
4,0x85U,0x80000308U,0x20U,0x800000B4U,
2,0x85U,0x8000000BU,
3,0x85U,0x80000020U,0xBU,
3,0x85U,0x80000308U,0xBU,
4,0x85U,0x80000308U,0x20U,0xBU,
2,0x85U,0x8000FFFCU,
3,0x85U,0x80000020U,0x8000FFFCU,
3,0x85U,0x80000308U,0x8000FFFCU,
4,0x85U,0x80000308U,0x20U,0x8000FFFCU,
2,0x85U,0x8000007DU,
3,0x85U,0x80000020U,0x7DU,
3,0x85U,0x80000308U,0x7DU,
4,0x85U,0x80000308U,0x20U,0x7DU,
2,0x85U,0x8000000DU,
3,0x85U,0x80000020U,0xDU,
3,0x85U,0x80000308U,0xDU,
4,0x85U,0x80000308U,0x20U,0xDU,
2,0x85U,0x80000021U,
3,0x85U,0x80000020U,0x21U,
3,0x85U,0x80000308U,0x21U,
4,0x85U,0x80000308U,0x20U,0x21U,
2,0x85U,0x800000A0U,
3,0x85U,0x80000020U,0x800000A0U,
3,0x85U,0x80000308U,0xA0U,
4,0x85U,0x80000308U,0x20U,0x800000A0U,
2,0x85U,0x8000AC00U,
3,0x85U,0x80000020U,0x8000AC00U,
3,0x85U,0x80000308U,0x8000AC00U,
4,0x85U,0x80000308U,0x20U,0x8000AC00U,
2,0x85U,0x8000AC01U,
3,0x85U,0x80000020U,0x8000AC01U,
3,0x85U,0x80000308U,0x8000AC01U,
4,0x85U,0x80000308U,0x20U,0x8000AC01U,
2,0x85U,0x800005D0U,
3,0x85U,0x80000020U,0x800005D0U,
3,0x85U,0x80000308U,0x5D0U,
4,0x85U,0x80000308U,0x20U,0x800005D0U,
2,0x85U,0x8000002DU,
3,0x85U,0x80000020U,0x8000002DU,
3,0x85U,0x80000308U,0x2DU,
4,0x85U,0x80000308U,0x20U,0x8000002DU,
2,0x85U,0x8000231AU,
3,0x85U,0x80000020U,0x8000231AU,
3,0x85U,0x80000308U,0x8000231AU,
4,0x85U,0x80000308U,0x20U,0x8000231AU,
2,0x85U,0x80002024U,
3,0x85U,0x80000020U,0x80002024U,
3,0x85U,0x80000308U,0x2024U,
4,0x85U,0x80000308U,0x20U,0x80002024U,
2,0x85U,0x8000002CU,
3,0x85U,0x80000020U,0x2CU,
3,0x85U,0x80000308U,0x2CU,
4,0x85U,0x80000308U,0x20U,0x2CU,
2,0x85U,0x80001100U,
3,0x85U,0x80000020U,0x80001100U,
3,0x85U,0x80000308U,0x80001100U,
4,0x85U,0x80000308U,0x20U,0x80001100U,
2,0x85U,0x800011A8U,
3,0x85U,0x80000020U,0x800011A8U,
3,0x85U,0x80000308U,0x800011A8U,
4,0x85U,0x80000308U,0x20U,0x800011A8U,
2,0x85U,0x80001160U,
3,0x85U,0x80000020U,0x80001160U,
3,0x85U,0x80000308U,0x80001160U,
4,0x85U,0x80000308U,0x20U,0x80001160U,
2,0x85U,0x8000000AU,
3,0x85U,0x80000020U,0xAU,
3,0x85U,0x80000308U,0xAU,
4,0x85U,0x80000308U,0x20U,0xAU,
2,0x85U,0x80000085U,
3,0x85U,0x80000020U,0x85U,
3,0x85U,0x80000308U,0x85U,
4,0x85U,0x80000308U,0x20U,0x85U,
2,0x85U,0x800017D6U,
3,0x85U,0x80000020U,0x800017D6U,
3,0x85U,0x80000308U,0x17D6U,
4,0x85U,0x80000308U,0x20U,0x800017D6U,
2,0x85U,0x80000030U,
3,0x85U,0x80000020U,0x80000030U,
3,0x85U,0x80000308U,0x30U,
4,0x85U,0x80000308U,0x20U,0x80000030U,
2,0x85U,0x80002329U,
3,0x85U,0x80000020U,0x80002329U,
3,0x85U,0x80000308U,0x80002329U,
4,0x85U,0x80000308U,0x20U,0x80002329U,
2,0x85U,0x80000025U,
3,0x85U,0x80000020U,0x80000025U,
3,0x85U,0x80000308U,0x25U,
4,0x85U,0x80000308U,0x20U,0x80000025U,
2,0x85U,0x80000024U,
3,0x85U,0x80000020U,0x80000024U,
3,0x85U,0x80000308U,0x24U,
4,0x85U,0x80000308U,0x20U,0x80000024U,
2,0x85U,0x80000022U,
3,0x85U,0x80000020U,0x80000022U,
3,0x85U,0x80000308U,0x22U,
4,0x85U,0x80000308U,0x20U,0x80000022U,
2,0x85U,0x80000020U,
3,0x85U,0x80000020U,0x20U,
3,0x85U,0x80000308U,0x20U,
4,0x85U,0x80000308U,0x20U,0x20U,
2,0x85U,0x8000002FU,
3,0x85U,0x80000020U,0x2FU,
3,0x85U,0x80000308U,0x2FU,
4,0x85U,0x80000308U,0x20U,0x2FU,
2,0x85U,0x80002060U,
3,0x85U,0x80000020U,0x2060U,
3,0x85U,0x80000308U,0x2060U,
4,0x85U,0x80000308U,0x20U,0x2060U,
2,0x85U,0x8000200BU,
3,0x85U,0x80000020U,0x200BU,
3,0x85U,0x80000308U,0x200BU,
4,0x85U,0x80000308U,0x20U,0x200BU,
2,0x85U,0x8001F1E6U,
3,0x85U,0x80000020U,0x8001F1E6U,
3,0x85U,0x80000308U,0x8001F1E6U,
4,0x85U,0x80000308U,0x20U,0x8001F1E6U,
2,0x85U,0x8000261DU,
3,0x85U,0x80000020U,0x8000261DU,
3,0x85U,0x80000308U,0x8000261DU,
4,0x85U,0x80000308U,0x20U,0x8000261DU,
2,0x85U,0x8001F3FBU,
3,0x85U,0x80000020U,0x8001F3FBU,
3,0x85U,0x80000308U,0x8001F3FBU,
4,0x85U,0x80000308U,0x20U,0x8001F3FBU,
2,0x85U,0x80000029U,
3,0x85U,0x80000020U,0x29U,
3,0x85U,0x80000308U,0x29U,
4,0x85U,0x80000308U,0x20U,0x29U,
2,0x85U,0x80000028U,
3,0x85U,0x80000020U,0x80000028U,
3,0x85U,0x80000308U,0x28U,
4,0x85U,0x80000308U,0x20U,0x80000028U,
2,0x85U,0x80000001U,
3,0x85U,0x80000020U,0x80000001U,
3,0x85U,0x80000308U,0x1U,
4,0x85U,0x80000308U,0x20U,0x80000001U,
2,0x85U,0x8000200DU,
3,0x85U,0x80000020U,0x8000200DU,
3,0x85U,0x80000308U,0x200DU,
4,0x85U,0x80000308U,0x20U,0x8000200DU,
2,0x85U,0x800000A7U,
3,0x85U,0x80000020U,0x800000A7U,
3,0x85U,0x80000308U,0xA7U,
4,0x85U,0x80000308U,0x20U,0x800000A7U,
2,0x85U,0x80050005U,
3,0x85U,0x80000020U,0x80050005U,
3,0x85U,0x80000308U,0x50005U,
4,0x85U,0x80000308U,0x20U,0x80050005U,
2,0x85U,0x80000E01U,
3,0x85U,0x80000020U,0x80000E01U,
3,0x85U,0x80000308U,0xE01U,
4,0x85U,0x80000308U,0x20U,0x80000E01U,
2,0x85U,0x80003041U,
3,0x85U,0x80000020U,0x80003041U,
3,0x85U,0x80000308U,0x3041U,
4,0x85U,0x80000308U,0x20U,0x80003041U,
2,0x17D6U,0x80000023U,
3,0x17D6U,0x20U,0x80000023U,
3,0x17D6U,0x308U,0x80000023U,
4,0x17D6U,0x308U,0x20U,0x80000023U,
2,0x17D6U,0x80002014U,
3,0x17D6U,0x20U,0x80002014U,
3,0x17D6U,0x308U,0x80002014U,
4,0x17D6U,0x308U,0x20U,0x80002014U,
2,0x17D6U,0x9U,
3,0x17D6U,0x20U,0x80000009U,
3,0x17D6U,0x308U,0x9U,
4,0x17D6U,0x308U,0x20U,0x80000009U,
2,0x17D6U,0x800000B4U,
3,0x17D6U,0x20U,0x800000B4U,
3,0x17D6U,0x308U,0x800000B4U,
4,0x17D6U,0x308U,0x20U,0x800000B4U,
2,0x17D6U,0xBU,
3,0x17D6U,0x20U,0xBU,
3,0x17D6U,0x308U,0xBU,
4,0x17D6U,0x308U,0x20U,0xBU,
2,0x17D6U,0x8000FFFCU,
3,0x17D6U,0x20U,0x8000FFFCU,
3,0x17D6U,0x308U,0x8000FFFCU,
4,0x17D6U,0x308U,0x20U,0x8000FFFCU,
2,0x17D6U,0x7DU,
3,0x17D6U,0x20U,0x7DU,
3,0x17D6U,0x308U,0x7DU,
4,0x17D6U,0x308U,0x20U,0x7DU,
2,0x17D6U,0xDU,
3,0x17D6U,0x20U,0xDU,
3,0x17D6U,0x308U,0xDU,
4,0x17D6U,0x308U,0x20U,0xDU,
2,0x17D6U,0x21U,
3,0x17D6U,0x20U,0x21U,
3,0x17D6U,0x308U,0x21U,
4,0x17D6U,0x308U,0x20U,0x21U,
2,0x17D6U,0xA0U,
3,0x17D6U,0x20U,0x800000A0U,
3,0x17D6U,0x308U,0xA0U,
4,0x17D6U,0x308U,0x20U,0x800000A0U,
2,0x17D6U,0x8000AC00U,
3,0x17D6U,0x20U,0x8000AC00U,
3,0x17D6U,0x308U,0x8000AC00U,
4,0x17D6U,0x308U,0x20U,0x8000AC00U,
2,0x17D6U,0x8000AC01U,
3,0x17D6U,0x20U,0x8000AC01U,
3,0x17D6U,0x308U,0x8000AC01U,
4,0x17D6U,0x308U,0x20U,0x8000AC01U,
2,0x17D6U,0x800005D0U,
3,0x17D6U,0x20U,0x800005D0U,
3,0x17D6U,0x308U,0x800005D0U,
4,0x17D6U,0x308U,0x20U,0x800005D0U,
2,0x17D6U,0x2DU,
3,0x17D6U,0x20U,0x8000002DU,
3,0x17D6U,0x308U,0x2DU,
4,0x17D6U,0x308U,0x20U,0x8000002DU,
2,0x17D6U,0x8000231AU,
3,0x17D6U,0x20U,0x8000231AU,
3,0x17D6U,0x308U,0x8000231AU,
4,0x17D6U,0x308U,0x20U,0x8000231AU,
2,0x17D6U,0x2024U,
3,0x17D6U,0x20U,0x80002024U,
3,0x17D6U,0x308U,0x2024U,
4,0x17D6U,0x308U,0x20U,0x80002024U,
2,0x17D6U,0x2CU,
3,0x17D6U,0x20U,0x2CU,
3,0x17D6U,0x308U,0x2CU,
4,0x17D6U,0x308U,0x20U,0x2CU,
2,0x17D6U,0x80001100U,
3,0x17D6U,0x20U,0x80001100U,
3,0x17D6U,0x308U,0x80001100U,
4,0x17D6U,0x308U,0x20U,0x80001100U,
2,0x17D6U,0x800011A8U,
3,0x17D6U,0x20U,0x800011A8U,
3,0x17D6U,0x308U,0x800011A8U,
4,0x17D6U,0x308U,0x20U,0x800011A8U,
2,0x17D6U,0x80001160U,
3,0x17D6U,0x20U,0x80001160U,
3,0x17D6U,0x308U,0x80001160U,
4,0x17D6U,0x308U,0x20U,0x80001160U,
2,0x17D6U,0xAU,
3,0x17D6U,0x20U,0xAU,
3,0x17D6U,0x308U,0xAU,
4,0x17D6U,0x308U,0x20U,0xAU,
2,0x17D6U,0x85U,
3,0x17D6U,0x20U,0x85U,
3,0x17D6U,0x308U,0x85U,
4,0x17D6U,0x308U,0x20U,0x85U,
2,0x17D6U,0x17D6U,
3,0x17D6U,0x20U,0x800017D6U,
3,0x17D6U,0x308U,0x17D6U,
4,0x17D6U,0x308U,0x20U,0x800017D6U,
2,0x17D6U,0x80000030U,
3,0x17D6U,0x20U,0x80000030U,
3,0x17D6U,0x308U,0x80000030U,
4,0x17D6U,0x308U,0x20U,0x80000030U,
2,0x17D6U,0x80002329U,
3,0x17D6U,0x20U,0x80002329U,
3,0x17D6U,0x308U,0x80002329U,
4,0x17D6U,0x308U,0x20U,0x80002329U,
2,0x17D6U,0x80000025U,
3,0x17D6U,0x20U,0x80000025U,
3,0x17D6U,0x308U,0x80000025U,
4,0x17D6U,0x308U,0x20U,0x80000025U,
2,0x17D6U,0x80000024U,
3,0x17D6U,0x20U,0x80000024U,
3,0x17D6U,0x308U,0x80000024U,
4,0x17D6U,0x308U,0x20U,0x80000024U,
2,0x17D6U,0x22U,
3,0x17D6U,0x20U,0x80000022U,
3,0x17D6U,0x308U,0x22U,
4,0x17D6U,0x308U,0x20U,0x80000022U,
2,0x17D6U,0x20U,
3,0x17D6U,0x20U,0x20U,
3,0x17D6U,0x308U,0x20U,
4,0x17D6U,0x308U,0x20U,0x20U,
2,0x17D6U,0x2FU,
3,0x17D6U,0x20U,0x2FU,
3,0x17D6U,0x308U,0x2FU,
4,0x17D6U,0x308U,0x20U,0x2FU,
2,0x17D6U,0x2060U,
3,0x17D6U,0x20U,0x2060U,
3,0x17D6U,0x308U,0x2060U,
4,0x17D6U,0x308U,0x20U,0x2060U,
2,0x17D6U,0x200BU,
3,0x17D6U,0x20U,0x200BU,
3,0x17D6U,0x308U,0x200BU,
4,0x17D6U,0x308U,0x20U,0x200BU,
2,0x17D6U,0x8001F1E6U,
3,0x17D6U,0x20U,0x8001F1E6U,
3,0x17D6U,0x308U,0x8001F1E6U,
4,0x17D6U,0x308U,0x20U,0x8001F1E6U,
2,0x17D6U,0x8000261DU,
3,0x17D6U,0x20U,0x8000261DU,
3,0x17D6U,0x308U,0x8000261DU,
4,0x17D6U,0x308U,0x20U,0x8000261DU,
2,0x17D6U,0x8001F3FBU,
3,0x17D6U,0x20U,0x8001F3FBU,
3,0x17D6U,0x308U,0x8001F3FBU,
4,0x17D6U,0x308U,0x20U,0x8001F3FBU,
2,0x17D6U,0x29U,
3,0x17D6U,0x20U,0x29U,
3,0x17D6U,0x308U,0x29U,
4,0x17D6U,0x308U,0x20U,0x29U,
2,0x17D6U,0x80000028U,
3,0x17D6U,0x20U,0x80000028U,
3,0x17D6U,0x308U,0x80000028U,
4,0x17D6U,0x308U,0x20U,0x80000028U,
2,0x17D6U,0x1U,
3,0x17D6U,0x20U,0x80000001U,
3,0x17D6U,0x308U,0x1U,
4,0x17D6U,0x308U,0x20U,0x80000001U,
2,0x17D6U,0x200DU,
3,0x17D6U,0x20U,0x8000200DU,
3,0x17D6U,0x308U,0x200DU,
4,0x17D6U,0x308U,0x20U,0x8000200DU,
2,0x17D6U,0x800000A7U,
3,0x17D6U,0x20U,0x800000A7U,
3,0x17D6U,0x308U,0x800000A7U,
4,0x17D6U,0x308U,0x20U,0x800000A7U,
2,0x17D6U,0x80050005U,
3,0x17D6U,0x20U,0x80050005U,
3,0x17D6U,0x308U,0x80050005U,
4,0x17D6U,0x308U,0x20U,0x80050005U,
2,0x17D6U,0x80000E01U,
3,0x17D6U,0x20U,0x80000E01U,
3,0x17D6U,0x308U,0x80000E01U,
4,0x17D6U,0x308U,0x20U,0x80000E01U,
2,0x17D6U,0x3041U,
3,0x17D6U,0x20U,0x80003041U,
3,0x17D6U,0x308U,0x3041U,
4,0x17D6U,0x308U,0x20U,0x80003041U,
2,0x30U,0x23U,
3,0x30U,0x20U,0x80000023U,
3,0x30U,0x308U,0x23U,
4,0x30U,0x308U,0x20U,0x80000023U,
2,0x30U,0x80002014U,
3,0x30U,0x20U,0x80002014U,
3,0x30U,0x308U,0x80002014U,
4,0x30U,0x308U,0x20U,0x80002014U,
2,0x30U,0x9U,
3,0x30U,0x20U,0x80000009U,
3,0x30U,0x308U,0x9U,
4,0x30U,0x308U,0x20U,0x80000009U,
2,0x30U,0x800000B4U,
3,0x30U,0x20U,0x800000B4U,
3,0x30U,0x308U,0x800000B4U,
4,0x30U,0x308U,0x20U,0x800000B4U,
2,0x30U,0xBU,
3,0x30U,0x20U,0xBU,
3,0x30U,0x308U,0xBU,
4,0x30U,0x308U,0x20U,0xBU,
2,0x30U,0x8000FFFCU,
3,0x30U,0x20U,0x8000FFFCU,
3,0x30U,0x308U,0x8000FFFCU,
4,0x30U,0x308U,0x20U,0x8000FFFCU,
2,0x30U,0x7DU,
3,0x30U,0x20U,0x7DU,
3,0x30U,0x308U,0x7DU,
4,0x30U,0x308U,0x20U,0x7DU,
2,0x30U,0xDU,
3,0x30U,0x20U,0xDU,
3,0x30U,0x308U,0xDU,
4,0x30U,0x308U,0x20U,0xDU,
2,0x30U,0x21U,
3,0x30U,0x20U,0x21U,
3,0x30U,0x308U,0x21U,
4,0x30U,0x308U,0x20U,0x21U,
2,0x30U,0xA0U,
3,0x30U,0x20U,0x800000A0U,
3,0x30U,0x308U,0xA0U,
4,0x30U,0x308U,0x20U,0x800000A0U,
2,0x30U,0x8000AC00U,
3,0x30U,0x20U,0x8000AC00U,
3,0x30U,0x308U,0x8000AC00U,
4,0x30U,0x308U,0x20U,0x8000AC00U,
2,0x30U,0x8000AC01U,
3,0x30U,0x20U,0x8000AC01U,
3,0x30U,0x308U,0x8000AC01U,
4,0x30U,0x308U,0x20U,0x8000AC01U,
2,0x30U,0x5D0U,
3,0x30U,0x20U,0x800005D0U,
3,0x30U,0x308U,0x5D0U,
4,0x30U,0x308U,0x20U,0x800005D0U,
2,0x30U,0x2DU,
3,0x30U,0x20U,0x8000002DU,
3,0x30U,0x308U,0x2DU,
4,0x30U,0x308U,0x20U,0x8000002DU,
2,0x30U,0x8000231AU,
3,0x30U,0x20U,0x8000231AU,
3,0x30U,0x308U,0x8000231AU,
4,0x30U,0x308U,0x20U,0x8000231AU,
2,0x30U,0x2024U,
3,0x30U,0x20U,0x80002024U,
3,0x30U,0x308U,0x2024U,
4,0x30U,0x308U,0x20U,0x80002024U,
2,0x30U,0x2CU,
3,0x30U,0x20U,0x2CU,
3,0x30U,0x308U,0x2CU,
4,0x30U,0x308U,0x20U,0x2CU,
2,0x30U,0x80001100U,
3,0x30U,0x20U,0x80001100U,
3,0x30U,0x308U,0x80001100U,
4,0x30U,0x308U,0x20U,0x80001100U,
2,0x30U,0x800011A8U,
3,0x30U,0x20U,0x800011A8U,
3,0x30U,0x308U,0x800011A8U,
4,0x30U,0x308U,0x20U,0x800011A8U,
2,0x30U,0x80001160U,
3,0x30U,0x20U,0x80001160U,
3,0x30U,0x308U,0x80001160U,
4,0x30U,0x308U,0x20U,0x80001160U,
2,0x30U,0xAU,
3,0x30U,0x20U,0xAU,
3,0x30U,0x308U,0xAU,
4,0x30U,0x308U,0x20U,0xAU,
2,0x30U,0x85U,
3,0x30U,0x20U,0x85U,
3,0x30U,0x308U,0x85U,
4,0x30U,0x308U,0x20U,0x85U,
2,0x30U,0x17D6U,
3,0x30U,0x20U,0x800017D6U,
3,0x30U,0x308U,0x17D6U,
4,0x30U,0x308U,0x20U,0x800017D6U,
2,0x30U,0x30U,
3,0x30U,0x20U,0x80000030U,
3,0x30U,0x308U,0x30U,
4,0x30U,0x308U,0x20U,0x80000030U,
2,0x30U,0x80002329U,
3,0x30U,0x20U,0x80002329U,
3,0x30U,0x308U,0x80002329U,
4,0x30U,0x308U,0x20U,0x80002329U,
2,0x30U,0x25U,
3,0x30U,0x20U,0x80000025U,
3,0x30U,0x308U,0x25U,
4,0x30U,0x308U,0x20U,0x80000025U,
2,0x30U,0x24U,
3,0x30U,0x20U,0x80000024U,
3,0x30U,0x308U,0x24U,
4,0x30U,0x308U,0x20U,0x80000024U,
2,0x30U,0x22U,
3,0x30U,0x20U,0x80000022U,
3,0x30U,0x308U,0x22U,
4,0x30U,0x308U,0x20U,0x80000022U,
2,0x30U,0x20U,
3,0x30U,0x20U,0x20U,
3,0x30U,0x308U,0x20U,
4,0x30U,0x308U,0x20U,0x20U,
2,0x30U,0x2FU,
3,0x30U,0x20U,0x2FU,
3,0x30U,0x308U,0x2FU,
4,0x30U,0x308U,0x20U,0x2FU,
2,0x30U,0x2060U,
3,0x30U,0x20U,0x2060U,
3,0x30U,0x308U,0x2060U,
4,0x30U,0x308U,0x20U,0x2060U,
2,0x30U,0x200BU,
3,0x30U,0x20U,0x200BU,
3,0x30U,0x308U,0x200BU,
4,0x30U,0x308U,0x20U,0x200BU,
2,0x30U,0x8001F1E6U,
3,0x30U,0x20U,0x8001F1E6U,
3,0x30U,0x308U,0x8001F1E6U,
4,0x30U,0x308U,0x20U,0x8001F1E6U,
2,0x30U,0x8000261DU,
3,0x30U,0x20U,0x8000261DU,
3,0x30U,0x308U,0x8000261DU,
4,0x30U,0x308U,0x20U,0x8000261DU,
2,0x30U,0x8001F3FBU,
3,0x30U,0x20U,0x8001F3FBU,
3,0x30U,0x308U,0x8001F3FBU,
4,0x30U,0x308U,0x20U,0x8001F3FBU,
2,0x30U,0x29U,
3,0x30U,0x20U,0x29U,
3,0x30U,0x308U,0x29U,
4,0x30U,0x308U,0x20U,0x29U,
2,0x30U,0x28U,
3,0x30U,0x20U,0x80000028U,
3,0x30U,0x308U,0x28U,
4,0x30U,0x308U,0x20U,0x80000028U,
2,0x30U,0x1U,
3,0x30U,0x20U,0x80000001U,
3,0x30U,0x308U,0x1U,
4,0x30U,0x308U,0x20U,0x80000001U,
2,0x30U,0x200DU,
3,0x30U,0x20U,0x8000200DU,
3,0x30U,0x308U,0x200DU,
4,0x30U,0x308U,0x20U,0x8000200DU,
2,0x30U,0xA7U,
3,0x30U,0x20U,0x800000A7U,
3,0x30U,0x308U,0xA7U,
4,0x30U,0x308U,0x20U,0x800000A7U,
2,0x30U,0x50005U,
3,0x30U,0x20U,0x80050005U,
3,0x30U,0x308U,0x50005U,
4,0x30U,0x308U,0x20U,0x80050005U,
2,0x30U,0xE01U,
3,0x30U,0x20U,0x80000E01U,
3,0x30U,0x308U,0xE01U,
4,0x30U,0x308U,0x20U,0x80000E01U,
2,0x30U,0x3041U,
3,0x30U,0x20U,0x80003041U,
3,0x30U,0x308U,0x3041U,
4,0x30U,0x308U,0x20U,0x80003041U,
2,0x2329U,0x23U,
3,0x2329U,0x20U,0x23U,
3,0x2329U,0x308U,0x23U,
4,0x2329U,0x308U,0x20U,0x23U,
2,0x2329U,0x2014U,
3,0x2329U,0x20U,0x2014U,
3,0x2329U,0x308U,0x2014U,
4,0x2329U,0x308U,0x20U,0x2014U,
2,0x2329U,0x9U,
3,0x2329U,0x20U,0x9U,
3,0x2329U,0x308U,0x9U,
4,0x2329U,0x308U,0x20U,0x9U,
2,0x2329U,0xB4U,
3,0x2329U,0x20U,0xB4U,
3,0x2329U,0x308U,0xB4U,
4,0x2329U,0x308U,0x20U,0xB4U,
2,0x2329U,0xBU,
3,0x2329U,0x20U,0xBU,
3,0x2329U,0x308U,0xBU,
4,0x2329U,0x308U,0x20U,0xBU,
2,0x2329U,0xFFFCU,
3,0x2329U,0x20U,0xFFFCU,
3,0x2329U,0x308U,0xFFFCU,
4,0x2329U,0x308U,0x20U,0xFFFCU,
2,0x2329U,0x7DU,
3,0x2329U,0x20U,0x7DU,
3,0x2329U,0x308U,0x7DU,
4,0x2329U,0x308U,0x20U,0x7DU,
2,0x2329U,0xDU,
3,0x2329U,0x20U,0xDU,
3,0x2329U,0x308U,0xDU,
4,0x2329U,0x308U,0x20U,0xDU,
2,0x2329U,0x21U,
3,0x2329U,0x20U,0x21U,
3,0x2329U,0x308U,0x21U,
4,0x2329U,0x308U,0x20U,0x21U,
2,0x2329U,0xA0U,
3,0x2329U,0x20U,0xA0U,
3,0x2329U,0x308U,0xA0U,
4,0x2329U,0x308U,0x20U,0xA0U,
2,0x2329U,0xAC00U,
3,0x2329U,0x20U,0xAC00U,
3,0x2329U,0x308U,0xAC00U,
4,0x2329U,0x308U,0x20U,0xAC00U,
2,0x2329U,0xAC01U,
3,0x2329U,0x20U,0xAC01U,
3,0x2329U,0x308U,0xAC01U,
4,0x2329U,0x308U,0x20U,0xAC01U,
2,0x2329U,0x5D0U,
3,0x2329U,0x20U,0x5D0U,
3,0x2329U,0x308U,0x5D0U,
4,0x2329U,0x308U,0x20U,0x5D0U,
2,0x2329U,0x2DU,
3,0x2329U,0x20U,0x2DU,
3,0x2329U,0x308U,0x2DU,
4,0x2329U,0x308U,0x20U,0x2DU,
2,0x2329U,0x231AU,
3,0x2329U,0x20U,0x231AU,
3,0x2329U,0x308U,0x231AU,
4,0x2329U,0x308U,0x20U,0x231AU,
2,0x2329U,0x2024U,
3,0x2329U,0x20U,0x2024U,
3,0x2329U,0x308U,0x2024U,
4,0x2329U,0x308U,0x20U,0x2024U,
2,0x2329U,0x2CU,
3,0x2329U,0x20U,0x2CU,
3,0x2329U,0x308U,0x2CU,
4,0x2329U,0x308U,0x20U,0x2CU,
2,0x2329U,0x1100U,
3,0x2329U,0x20U,0x1100U,
3,0x2329U,0x308U,0x1100U,
4,0x2329U,0x308U,0x20U,0x1100U,
2,0x2329U,0x11A8U,
3,0x2329U,0x20U,0x11A8U,
3,0x2329U,0x308U,0x11A8U,
4,0x2329U,0x308U,0x20U,0x11A8U,
2,0x2329U,0x1160U,
3,0x2329U,0x20U,0x1160U,
3,0x2329U,0x308U,0x1160U,
4,0x2329U,0x308U,0x20U,0x1160U,
2,0x2329U,0xAU,
3,0x2329U,0x20U,0xAU,
3,0x2329U,0x308U,0xAU,
4,0x2329U,0x308U,0x20U,0xAU,
2,0x2329U,0x85U,
3,0x2329U,0x20U,0x85U,
3,0x2329U,0x308U,0x85U,
4,0x2329U,0x308U,0x20U,0x85U,
2,0x2329U,0x17D6U,
3,0x2329U,0x20U,0x17D6U,
3,0x2329U,0x308U,0x17D6U,
4,0x2329U,0x308U,0x20U,0x17D6U,
2,0x2329U,0x30U,
3,0x2329U,0x20U,0x30U,
3,0x2329U,0x308U,0x30U,
4,0x2329U,0x308U,0x20U,0x30U,
2,0x2329U,0x2329U,
3,0x2329U,0x20U,0x2329U,
3,0x2329U,0x308U,0x2329U,
4,0x2329U,0x308U,0x20U,0x2329U,
2,0x2329U,0x25U,
3,0x2329U,0x20U,0x25U,
3,0x2329U,0x308U,0x25U,
4,0x2329U,0x308U,0x20U,0x25U,
2,0x2329U,0x24U,
3,0x2329U,0x20U,0x24U,
3,0x2329U,0x308U,0x24U,
4,0x2329U,0x308U,0x20U,0x24U,
2,0x2329U,0x22U,
3,0x2329U,0x20U,0x22U,
3,0x2329U,0x308U,0x22U,
4,0x2329U,0x308U,0x20U,0x22U,
2,0x2329U,0x20U,
3,0x2329U,0x20U,0x20U,
3,0x2329U,0x308U,0x20U,
4,0x2329U,0x308U,0x20U,0x20U,
2,0x2329U,0x2FU,
3,0x2329U,0x20U,0x2FU,
3,0x2329U,0x308U,0x2FU,
4,0x2329U,0x308U,0x20U,0x2FU,
2,0x2329U,0x2060U,
3,0x2329U,0x20U,0x2060U,
3,0x2329U,0x308U,0x2060U,
4,0x2329U,0x308U,0x20U,0x2060U,
2,0x2329U,0x200BU,
3,0x2329U,0x20U,0x200BU,
3,0x2329U,0x308U,0x200BU,
4,0x2329U,0x308U,0x20U,0x200BU,
2,0x2329U,0x1F1E6U,
3,0x2329U,0x20U,0x1F1E6U,
3,0x2329U,0x308U,0x1F1E6U,
4,0x2329U,0x308U,0x20U,0x1F1E6U,
2,0x2329U,0x261DU,
3,0x2329U,0x20U,0x261DU,
3,0x2329U,0x308U,0x261DU,
4,0x2329U,0x308U,0x20U,0x261DU,
2,0x2329U,0x1F3FBU,
3,0x2329U,0x20U,0x1F3FBU,
3,0x2329U,0x308U,0x1F3FBU,
4,0x2329U,0x308U,0x20U,0x1F3FBU,
2,0x2329U,0x29U,
3,0x2329U,0x20U,0x29U,
3,0x2329U,0x308U,0x29U,
4,0x2329U,0x308U,0x20U,0x29U,
2,0x2329U,0x28U,
3,0x2329U,0x20U,0x28U,
3,0x2329U,0x308U,0x28U,
4,0x2329U,0x308U,0x20U,0x28U,
2,0x2329U,0x1U,
3,0x2329U,0x20U,0x1U,
3,0x2329U,0x308U,0x1U,
4,0x2329U,0x308U,0x20U,0x1U,
2,0x2329U,0x200DU,
3,0x2329U,0x20U,0x200DU,
3,0x2329U,0x308U,0x200DU,
4,0x2329U,0x308U,0x20U,0x200DU,
2,0x2329U,0xA7U,
3,0x2329U,0x20U,0xA7U,
3,0x2329U,0x308U,0xA7U,
4,0x2329U,0x308U,0x20U,0xA7U,
2,0x2329U,0x50005U,
3,0x2329U,0x20U,0x50005U,
3,0x2329U,0x308U,0x50005U,
4,0x2329U,0x308U,0x20U,0x50005U,
2,0x2329U,0xE01U,
3,0x2329U,0x20U,0xE01U,
3,0x2329U,0x308U,0xE01U,
4,0x2329U,0x308U,0x20U,0xE01U,
2,0x2329U,0x3041U,
3,0x2329U,0x20U,0x3041U,
3,0x2329U,0x308U,0x3041U,
4,0x2329U,0x308U,0x20U,0x3041U,
2,0x25U,0x23U,
3,0x25U,0x20U,0x80000023U,
3,0x25U,0x308U,0x23U,
4,0x25U,0x308U,0x20U,0x80000023U,
2,0x25U,0x80002014U,
3,0x25U,0x20U,0x80002014U,
3,0x25U,0x308U,0x80002014U,
4,0x25U,0x308U,0x20U,0x80002014U,
2,0x25U,0x9U,
3,0x25U,0x20U,0x80000009U,
3,0x25U,0x308U,0x9U,
4,0x25U,0x308U,0x20U,0x80000009U,
2,0x25U,0x800000B4U,
3,0x25U,0x20U,0x800000B4U,
3,0x25U,0x308U,0x800000B4U,
4,0x25U,0x308U,0x20U,0x800000B4U,
2,0x25U,0xBU,
3,0x25U,0x20U,0xBU,
3,0x25U,0x308U,0xBU,
4,0x25U,0x308U,0x20U,0xBU,
2,0x25U,0x8000FFFCU,
3,0x25U,0x20U,0x8000FFFCU,
3,0x25U,0x308U,0x8000FFFCU,
4,0x25U,0x308U,0x20U,0x8000FFFCU,
2,0x25U,0x7DU,
3,0x25U,0x20U,0x7DU,
3,0x25U,0x308U,0x7DU,
4,0x25U,0x308U,0x20U,0x7DU,
2,0x25U,0xDU,
3,0x25U,0x20U,0xDU,
3,0x25U,0x308U,0xDU,
4,0x25U,0x308U,0x20U,0xDU,
2,0x25U,0x21U,
3,0x25U,0x20U,0x21U,
3,0x25U,0x308U,0x21U,
4,0x25U,0x308U,0x20U,0x21U,
2,0x25U,0xA0U,
3,0x25U,0x20U,0x800000A0U,
3,0x25U,0x308U,0xA0U,
4,0x25U,0x308U,0x20U,0x800000A0U,
2,0x25U,0x8000AC00U,
3,0x25U,0x20U,0x8000AC00U,
3,0x25U,0x308U,0x8000AC00U,
4,0x25U,0x308U,0x20U,0x8000AC00U,
2,0x25U,0x8000AC01U,
3,0x25U,0x20U,0x8000AC01U,
3,0x25U,0x308U,0x8000AC01U,
4,0x25U,0x308U,0x20U,0x8000AC01U,
2,0x25U,0x5D0U,
3,0x25U,0x20U,0x800005D0U,
3,0x25U,0x308U,0x5D0U,
4,0x25U,0x308U,0x20U,0x800005D0U,
2,0x25U,0x2DU,
3,0x25U,0x20U,0x8000002DU,
3,0x25U,0x308U,0x2DU,
4,0x25U,0x308U,0x20U,0x8000002DU,
2,0x25U,0x8000231AU,
3,0x25U,0x20U,0x8000231AU,
3,0x25U,0x308U,0x8000231AU,
4,0x25U,0x308U,0x20U,0x8000231AU,
2,0x25U,0x2024U,
3,0x25U,0x20U,0x80002024U,
3,0x25U,0x308U,0x2024U,
4,0x25U,0x308U,0x20U,0x80002024U,
2,0x25U,0x2CU,
3,0x25U,0x20U,0x2CU,
3,0x25U,0x308U,0x2CU,
4,0x25U,0x308U,0x20U,0x2CU,
2,0x25U,0x80001100U,
3,0x25U,0x20U,0x80001100U,
3,0x25U,0x308U,0x80001100U,
4,0x25U,0x308U,0x20U,0x80001100U,
2,0x25U,0x800011A8U,
3,0x25U,0x20U,0x800011A8U,
3,0x25U,0x308U,0x800011A8U,
4,0x25U,0x308U,0x20U,0x800011A8U,
2,0x25U,0x80001160U,
3,0x25U,0x20U,0x80001160U,
3,0x25U,0x308U,0x80001160U,
4,0x25U,0x308U,0x20U,0x80001160U,
2,0x25U,0xAU,
3,0x25U,0x20U,0xAU,
3,0x25U,0x308U,0xAU,
4,0x25U,0x308U,0x20U,0xAU,
2,0x25U,0x85U,
3,0x25U,0x20U,0x85U,
3,0x25U,0x308U,0x85U,
4,0x25U,0x308U,0x20U,0x85U,
2,0x25U,0x17D6U,
3,0x25U,0x20U,0x800017D6U,
3,0x25U,0x308U,0x17D6U,
4,0x25U,0x308U,0x20U,0x800017D6U,
2,0x25U,0x30U,
3,0x25U,0x20U,0x80000030U,
3,0x25U,0x308U,0x30U,
4,0x25U,0x308U,0x20U,0x80000030U,
2,0x25U,0x80002329U,
3,0x25U,0x20U,0x80002329U,
3,0x25U,0x308U,0x80002329U,
4,0x25U,0x308U,0x20U,0x80002329U,
2,0x25U,0x80000025U,
3,0x25U,0x20U,0x80000025U,
3,0x25U,0x308U,0x80000025U,
4,0x25U,0x308U,0x20U,0x80000025U,
2,0x25U,0x80000024U,
3,0x25U,0x20U,0x80000024U,
3,0x25U,0x308U,0x80000024U,
4,0x25U,0x308U,0x20U,0x80000024U,
2,0x25U,0x22U,
3,0x25U,0x20U,0x80000022U,
3,0x25U,0x308U,0x22U,
4,0x25U,0x308U,0x20U,0x80000022U,
2,0x25U,0x20U,
3,0x25U,0x20U,0x20U,
3,0x25U,0x308U,0x20U,
4,0x25U,0x308U,0x20U,0x20U,
2,0x25U,0x2FU,
3,0x25U,0x20U,0x2FU,
3,0x25U,0x308U,0x2FU,
4,0x25U,0x308U,0x20U,0x2FU,
2,0x25U,0x2060U,
3,0x25U,0x20U,0x2060U,
3,0x25U,0x308U,0x2060U,
4,0x25U,0x308U,0x20U,0x2060U,
2,0x25U,0x200BU,
3,0x25U,0x20U,0x200BU,
3,0x25U,0x308U,0x200BU,
4,0x25U,0x308U,0x20U,0x200BU,
2,0x25U,0x8001F1E6U,
3,0x25U,0x20U,0x8001F1E6U,
3,0x25U,0x308U,0x8001F1E6U,
4,0x25U,0x308U,0x20U,0x8001F1E6U,
2,0x25U,0x8000261DU,
3,0x25U,0x20U,0x8000261DU,
3,0x25U,0x308U,0x8000261DU,
4,0x25U,0x308U,0x20U,0x8000261DU,
2,0x25U,0x8001F3FBU,
3,0x25U,0x20U,0x8001F3FBU,
3,0x25U,0x308U,0x8001F3FBU,
4,0x25U,0x308U,0x20U,0x8001F3FBU,
2,0x25U,0x29U,
3,0x25U,0x20U,0x29U,
3,0x25U,0x308U,0x29U,
4,0x25U,0x308U,0x20U,0x29U,
2,0x25U,0x80000028U,
3,0x25U,0x20U,0x80000028U,
3,0x25U,0x308U,0x80000028U,
4,0x25U,0x308U,0x20U,0x80000028U,
2,0x25U,0x1U,
3,0x25U,0x20U,0x80000001U,
3,0x25U,0x308U,0x1U,
4,0x25U,0x308U,0x20U,0x80000001U,
2,0x25U,0x200DU,
3,0x25U,0x20U,0x8000200DU,
3,0x25U,0x308U,0x200DU,
4,0x25U,0x308U,0x20U,0x8000200DU,
2,0x25U,0xA7U,
3,0x25U,0x20U,0x800000A7U,
3,0x25U,0x308U,0xA7U,
4,0x25U,0x308U,0x20U,0x800000A7U,
2,0x25U,0x50005U,
3,0x25U,0x20U,0x80050005U,
3,0x25U,0x308U,0x50005U,
4,0x25U,0x308U,0x20U,0x80050005U,
2,0x25U,0xE01U,
3,0x25U,0x20U,0x80000E01U,
3,0x25U,0x308U,0xE01U,
4,0x25U,0x308U,0x20U,0x80000E01U,
2,0x25U,0x3041U,
3,0x25U,0x20U,0x80003041U,
3,0x25U,0x308U,0x3041U,
4,0x25U,0x308U,0x20U,0x80003041U,
2,0x24U,0x23U,
3,0x24U,0x20U,0x80000023U,
3,0x24U,0x308U,0x23U,
4,0x24U,0x308U,0x20U,0x80000023U,
2,0x24U,0x80002014U,
3,0x24U,0x20U,0x80002014U,
3,0x24U,0x308U,0x80002014U,
4,0x24U,0x308U,0x20U,0x80002014U,
2,0x24U,0x9U,
3,0x24U,0x20U,0x80000009U,
3,0x24U,0x308U,0x9U,
4,0x24U,0x308U,0x20U,0x80000009U,
2,0x24U,0x800000B4U,
3,0x24U,0x20U,0x800000B4U,
3,0x24U,0x308U,0x800000B4U,
4,0x24U,0x308U,0x20U,0x800000B4U,
2,0x24U,0xBU,
3,0x24U,0x20U,0xBU,
3,0x24U,0x308U,0xBU,
4,0x24U,0x308U,0x20U,0xBU,
2,0x24U,0x8000FFFCU,
3,0x24U,0x20U,0x8000FFFCU,
3,0x24U,0x308U,0x8000FFFCU,
4,0x24U,0x308U,0x20U,0x8000FFFCU,
2,0x24U,0x7DU,
3,0x24U,0x20U,0x7DU,
3,0x24U,0x308U,0x7DU,
4,0x24U,0x308U,0x20U,0x7DU,
2,0x24U,0xDU,
3,0x24U,0x20U,0xDU,
3,0x24U,0x308U,0xDU,
4,0x24U,0x308U,0x20U,0xDU,
2,0x24U,0x21U,
3,0x24U,0x20U,0x21U,
3,0x24U,0x308U,0x21U,
4,0x24U,0x308U,0x20U,0x21U,
2,0x24U,0xA0U,
3,0x24U,0x20U,0x800000A0U,
3,0x24U,0x308U,0xA0U,
4,0x24U,0x308U,0x20U,0x800000A0U,
2,0x24U,0xAC00U,
3,0x24U,0x20U,0x8000AC00U,
3,0x24U,0x308U,0xAC00U,
4,0x24U,0x308U,0x20U,0x8000AC00U,
2,0x24U,0xAC01U,
3,0x24U,0x20U,0x8000AC01U,
3,0x24U,0x308U,0xAC01U,
4,0x24U,0x308U,0x20U,0x8000AC01U,
2,0x24U,0x5D0U,
3,0x24U,0x20U,0x800005D0U,
3,0x24U,0x308U,0x5D0U,
4,0x24U,0x308U,0x20U,0x800005D0U,
2,0x24U,0x2DU,
3,0x24U,0x20U,0x8000002DU,
3,0x24U,0x308U,0x2DU,
4,0x24U,0x308U,0x20U,0x8000002DU,
2,0x24U,0x231AU,
3,0x24U,0x20U,0x8000231AU,
3,0x24U,0x308U,0x231AU,
4,0x24U,0x308U,0x20U,0x8000231AU,
2,0x24U,0x2024U,
3,0x24U,0x20U,0x80002024U,
3,0x24U,0x308U,0x2024U,
4,0x24U,0x308U,0x20U,0x80002024U,
2,0x24U,0x2CU,
3,0x24U,0x20U,0x2CU,
3,0x24U,0x308U,0x2CU,
4,0x24U,0x308U,0x20U,0x2CU,
2,0x24U,0x1100U,
3,0x24U,0x20U,0x80001100U,
3,0x24U,0x308U,0x1100U,
4,0x24U,0x308U,0x20U,0x80001100U,
2,0x24U,0x11A8U,
3,0x24U,0x20U,0x800011A8U,
3,0x24U,0x308U,0x11A8U,
4,0x24U,0x308U,0x20U,0x800011A8U,
2,0x24U,0x1160U,
3,0x24U,0x20U,0x80001160U,
3,0x24U,0x308U,0x1160U,
4,0x24U,0x308U,0x20U,0x80001160U,
2,0x24U,0xAU,
3,0x24U,0x20U,0xAU,
3,0x24U,0x308U,0xAU,
4,0x24U,0x308U,0x20U,0xAU,
2,0x24U,0x85U,
3,0x24U,0x20U,0x85U,
3,0x24U,0x308U,0x85U,
4,0x24U,0x308U,0x20U,0x85U,
2,0x24U,0x17D6U,
3,0x24U,0x20U,0x800017D6U,
3,0x24U,0x308U,0x17D6U,
4,0x24U,0x308U,0x20U,0x800017D6U,
2,0x24U,0x30U,
3,0x24U,0x20U,0x80000030U,
3,0x24U,0x308U,0x30U,
4,0x24U,0x308U,0x20U,0x80000030U,
2,0x24U,0x80002329U,
3,0x24U,0x20U,0x80002329U,
3,0x24U,0x308U,0x80002329U,
4,0x24U,0x308U,0x20U,0x80002329U,
2,0x24U,0x80000025U,
3,0x24U,0x20U,0x80000025U,
3,0x24U,0x308U,0x80000025U,
4,0x24U,0x308U,0x20U,0x80000025U,
2,0x24U,0x80000024U,
3,0x24U,0x20U,0x80000024U,
3,0x24U,0x308U,0x80000024U,
4,0x24U,0x308U,0x20U,0x80000024U,
2,0x24U,0x22U,
3,0x24U,0x20U,0x80000022U,
3,0x24U,0x308U,0x22U,
4,0x24U,0x308U,0x20U,0x80000022U,
2,0x24U,0x20U,
3,0x24U,0x20U,0x20U,
3,0x24U,0x308U,0x20U,
4,0x24U,0x308U,0x20U,0x20U,
2,0x24U,0x2FU,
3,0x24U,0x20U,0x2FU,
3,0x24U,0x308U,0x2FU,
4,0x24U,0x308U,0x20U,0x2FU,
2,0x24U,0x2060U,
3,0x24U,0x20U,0x2060U,
3,0x24U,0x308U,0x2060U,
4,0x24U,0x308U,0x20U,0x2060U,
2,0x24U,0x200BU,
3,0x24U,0x20U,0x200BU,
3,0x24U,0x308U,0x200BU,
4,0x24U,0x308U,0x20U,0x200BU,
2,0x24U,0x8001F1E6U,
3,0x24U,0x20U,0x8001F1E6U,
3,0x24U,0x308U,0x8001F1E6U,
4,0x24U,0x308U,0x20U,0x8001F1E6U,
2,0x24U,0x261DU,
3,0x24U,0x20U,0x8000261DU,
3,0x24U,0x308U,0x261DU,
4,0x24U,0x308U,0x20U,0x8000261DU,
2,0x24U,0x1F3FBU,
3,0x24U,0x20U,0x8001F3FBU,
3,0x24U,0x308U,0x1F3FBU,
4,0x24U,0x308U,0x20U,0x8001F3FBU,
2,0x24U,0x29U,
3,0x24U,0x20U,0x29U,
3,0x24U,0x308U,0x29U,
4,0x24U,0x308U,0x20U,0x29U,
2,0x24U,0x80000028U,
3,0x24U,0x20U,0x80000028U,
3,0x24U,0x308U,0x80000028U,
4,0x24U,0x308U,0x20U,0x80000028U,
2,0x24U,0x1U,
3,0x24U,0x20U,0x80000001U,
3,0x24U,0x308U,0x1U,
4,0x24U,0x308U,0x20U,0x80000001U,
2,0x24U,0x200DU,
3,0x24U,0x20U,0x8000200DU,
3,0x24U,0x308U,0x200DU,
4,0x24U,0x308U,0x20U,0x8000200DU,
2,0x24U,0xA7U,
3,0x24U,0x20U,0x800000A7U,
3,0x24U,0x308U,0xA7U,
4,0x24U,0x308U,0x20U,0x800000A7U,
2,0x24U,0x50005U,
3,0x24U,0x20U,0x80050005U,
3,0x24U,0x308U,0x50005U,
4,0x24U,0x308U,0x20U,0x80050005U,
2,0x24U,0xE01U,
3,0x24U,0x20U,0x80000E01U,
3,0x24U,0x308U,0xE01U,
4,0x24U,0x308U,0x20U,0x80000E01U,
2,0x24U,0x3041U,
3,0x24U,0x20U,0x80003041U,
3,0x24U,0x308U,0x3041U,
4,0x24U,0x308U,0x20U,0x80003041U,
2,0x22U,0x23U,
3,0x22U,0x20U,0x80000023U,
3,0x22U,0x308U,0x23U,
4,0x22U,0x308U,0x20U,0x80000023U,
2,0x22U,0x2014U,
3,0x22U,0x20U,0x80002014U,
3,0x22U,0x308U,0x2014U,
4,0x22U,0x308U,0x20U,0x80002014U,
2,0x22U,0x9U,
3,0x22U,0x20U,0x80000009U,
3,0x22U,0x308U,0x9U,
4,0x22U,0x308U,0x20U,0x80000009U,
2,0x22U,0xB4U,
3,0x22U,0x20U,0x800000B4U,
3,0x22U,0x308U,0xB4U,
4,0x22U,0x308U,0x20U,0x800000B4U,
2,0x22U,0xBU,
3,0x22U,0x20U,0xBU,
3,0x22U,0x308U,0xBU,
4,0x22U,0x308U,0x20U,0xBU,
2,0x22U,0xFFFCU,
3,0x22U,0x20U,0x8000FFFCU,
3,0x22U,0x308U,0xFFFCU,
4,0x22U,0x308U,0x20U,0x8000FFFCU,
2,0x22U,0x7DU,
3,0x22U,0x20U,0x7DU,
3,0x22U,0x308U,0x7DU,
4,0x22U,0x308U,0x20U,0x7DU,
2,0x22U,0xDU,
3,0x22U,0x20U,0xDU,
3,0x22U,0x308U,0xDU,
4,0x22U,0x308U,0x20U,0xDU,
2,0x22U,0x21U,
3,0x22U,0x20U,0x21U,
3,0x22U,0x308U,0x21U,
4,0x22U,0x308U,0x20U,0x21U,
2,0x22U,0xA0U,
3,0x22U,0x20U,0x800000A0U,
3,0x22U,0x308U,0xA0U,
4,0x22U,0x308U,0x20U,0x800000A0U,
2,0x22U,0xAC00U,
3,0x22U,0x20U,0x8000AC00U,
3,0x22U,0x308U,0xAC00U,
4,0x22U,0x308U,0x20U,0x8000AC00U,
2,0x22U,0xAC01U,
3,0x22U,0x20U,0x8000AC01U,
3,0x22U,0x308U,0xAC01U,
4,0x22U,0x308U,0x20U,0x8000AC01U,
2,0x22U,0x5D0U,
3,0x22U,0x20U,0x800005D0U,
3,0x22U,0x308U,0x5D0U,
4,0x22U,0x308U,0x20U,0x800005D0U,
2,0x22U,0x2DU,
3,0x22U,0x20U,0x8000002DU,
3,0x22U,0x308U,0x2DU,
4,0x22U,0x308U,0x20U,0x8000002DU,
2,0x22U,0x231AU,
3,0x22U,0x20U,0x8000231AU,
3,0x22U,0x308U,0x231AU,
4,0x22U,0x308U,0x20U,0x8000231AU,
2,0x22U,0x2024U,
3,0x22U,0x20U,0x80002024U,
3,0x22U,0x308U,0x2024U,
4,0x22U,0x308U,0x20U,0x80002024U,
2,0x22U,0x2CU,
3,0x22U,0x20U,0x2CU,
3,0x22U,0x308U,0x2CU,
4,0x22U,0x308U,0x20U,0x2CU,
2,0x22U,0x1100U,
3,0x22U,0x20U,0x80001100U,
3,0x22U,0x308U,0x1100U,
4,0x22U,0x308U,0x20U,0x80001100U,
2,0x22U,0x11A8U,
3,0x22U,0x20U,0x800011A8U,
3,0x22U,0x308U,0x11A8U,
4,0x22U,0x308U,0x20U,0x800011A8U,
2,0x22U,0x1160U,
3,0x22U,0x20U,0x80001160U,
3,0x22U,0x308U,0x1160U,
4,0x22U,0x308U,0x20U,0x80001160U,
2,0x22U,0xAU,
3,0x22U,0x20U,0xAU,
3,0x22U,0x308U,0xAU,
4,0x22U,0x308U,0x20U,0xAU,
2,0x22U,0x85U,
3,0x22U,0x20U,0x85U,
3,0x22U,0x308U,0x85U,
4,0x22U,0x308U,0x20U,0x85U,
2,0x22U,0x17D6U,
3,0x22U,0x20U,0x800017D6U,
3,0x22U,0x308U,0x17D6U,
4,0x22U,0x308U,0x20U,0x800017D6U,
2,0x22U,0x30U,
3,0x22U,0x20U,0x80000030U,
3,0x22U,0x308U,0x30U,
4,0x22U,0x308U,0x20U,0x80000030U,
2,0x22U,0x2329U,
3,0x22U,0x20U,0x2329U,
3,0x22U,0x308U,0x2329U,
4,0x22U,0x308U,0x20U,0x2329U,
2,0x22U,0x25U,
3,0x22U,0x20U,0x80000025U,
3,0x22U,0x308U,0x25U,
4,0x22U,0x308U,0x20U,0x80000025U,
2,0x22U,0x24U,
3,0x22U,0x20U,0x80000024U,
3,0x22U,0x308U,0x24U,
4,0x22U,0x308U,0x20U,0x80000024U,
2,0x22U,0x22U,
3,0x22U,0x20U,0x80000022U,
3,0x22U,0x308U,0x22U,
4,0x22U,0x308U,0x20U,0x80000022U,
2,0x22U,0x20U,
3,0x22U,0x20U,0x20U,
3,0x22U,0x308U,0x20U,
4,0x22U,0x308U,0x20U,0x20U,
2,0x22U,0x2FU,
3,0x22U,0x20U,0x2FU,
3,0x22U,0x308U,0x2FU,
4,0x22U,0x308U,0x20U,0x2FU,
2,0x22U,0x2060U,
3,0x22U,0x20U,0x2060U,
3,0x22U,0x308U,0x2060U,
4,0x22U,0x308U,0x20U,0x2060U,
2,0x22U,0x200BU,
3,0x22U,0x20U,0x200BU,
3,0x22U,0x308U,0x200BU,
4,0x22U,0x308U,0x20U,0x200BU,
2,0x22U,0x1F1E6U,
3,0x22U,0x20U,0x8001F1E6U,
3,0x22U,0x308U,0x1F1E6U,
4,0x22U,0x308U,0x20U,0x8001F1E6U,
2,0x22U,0x261DU,
3,0x22U,0x20U,0x8000261DU,
3,0x22U,0x308U,0x261DU,
4,0x22U,0x308U,0x20U,0x8000261DU,
2,0x22U,0x1F3FBU,
3,0x22U,0x20U,0x8001F3FBU,
3,0x22U,0x308U,0x1F3FBU,
4,0x22U,0x308U,0x20U,0x8001F3FBU,
2,0x22U,0x29U,
3,0x22U,0x20U,0x29U,
3,0x22U,0x308U,0x29U,
4,0x22U,0x308U,0x20U,0x29U,
2,0x22U,0x28U,
3,0x22U,0x20U,0x28U,
3,0x22U,0x308U,0x28U,
4,0x22U,0x308U,0x20U,0x28U,
2,0x22U,0x1U,
3,0x22U,0x20U,0x80000001U,
3,0x22U,0x308U,0x1U,
4,0x22U,0x308U,0x20U,0x80000001U,
2,0x22U,0x200DU,
3,0x22U,0x20U,0x8000200DU,
3,0x22U,0x308U,0x200DU,
4,0x22U,0x308U,0x20U,0x8000200DU,
2,0x22U,0xA7U,
3,0x22U,0x20U,0x800000A7U,
3,0x22U,0x308U,0xA7U,
4,0x22U,0x308U,0x20U,0x800000A7U,
2,0x22U,0x50005U,
3,0x22U,0x20U,0x80050005U,
3,0x22U,0x308U,0x50005U,
4,0x22U,0x308U,0x20U,0x80050005U,
2,0x22U,0xE01U,
3,0x22U,0x20U,0x80000E01U,
3,0x22U,0x308U,0xE01U,
4,0x22U,0x308U,0x20U,0x80000E01U,
2,0x22U,0x3041U,
3,0x22U,0x20U,0x80003041U,
3,0x22U,0x308U,0x3041U,
4,0x22U,0x308U,0x20U,0x80003041U,
2,0x20U,0x80000023U,
3,0x20U,0x20U,0x80000023U,
3,0x20U,0x80000308U,0x23U,
4,0x20U,0x80000308U,0x20U,0x80000023U,
2,0x20U,0x80002014U,
3,0x20U,0x20U,0x80002014U,
3,0x20U,0x80000308U,0x80002014U,
4,0x20U,0x80000308U,0x20U,0x80002014U,
2,0x20U,0x80000009U,
3,0x20U,0x20U,0x80000009U,
3,0x20U,0x80000308U,0x9U,
4,0x20U,0x80000308U,0x20U,0x80000009U,
2,0x20U,0x800000B4U,
3,0x20U,0x20U,0x800000B4U,
3,0x20U,0x80000308U,0x800000B4U,
4,0x20U,0x80000308U,0x20U,0x800000B4U,
2,0x20U,0xBU,
3,0x20U,0x20U,0xBU,
3,0x20U,0x80000308U,0xBU,
4,0x20U,0x80000308U,0x20U,0xBU,
2,0x20U,0x8000FFFCU,
3,0x20U,0x20U,0x8000FFFCU,
3,0x20U,0x80000308U,0x8000FFFCU,
4,0x20U,0x80000308U,0x20U,0x8000FFFCU,
2,0x20U,0x7DU,
3,0x20U,0x20U,0x7DU,
3,0x20U,0x80000308U,0x7DU,
4,0x20U,0x80000308U,0x20U,0x7DU,
2,0x20U,0xDU,
3,0x20U,0x20U,0xDU,
3,0x20U,0x80000308U,0xDU,
4,0x20U,0x80000308U,0x20U,0xDU,
2,0x20U,0x21U,
3,0x20U,0x20U,0x21U,
3,0x20U,0x80000308U,0x21U,
4,0x20U,0x80000308U,0x20U,0x21U,
2,0x20U,0x800000A0U,
3,0x20U,0x20U,0x800000A0U,
3,0x20U,0x80000308U,0xA0U,
4,0x20U,0x80000308U,0x20U,0x800000A0U,
2,0x20U,0x8000AC00U,
3,0x20U,0x20U,0x8000AC00U,
3,0x20U,0x80000308U,0x8000AC00U,
4,0x20U,0x80000308U,0x20U,0x8000AC00U,
2,0x20U,0x8000AC01U,
3,0x20U,0x20U,0x8000AC01U,
3,0x20U,0x80000308U,0x8000AC01U,
4,0x20U,0x80000308U,0x20U,0x8000AC01U,
2,0x20U,0x800005D0U,
3,0x20U,0x20U,0x800005D0U,
3,0x20U,0x80000308U,0x5D0U,
4,0x20U,0x80000308U,0x20U,0x800005D0U,
2,0x20U,0x8000002DU,
3,0x20U,0x20U,0x8000002DU,
3,0x20U,0x80000308U,0x2DU,
4,0x20U,0x80000308U,0x20U,0x8000002DU,
2,0x20U,0x8000231AU,
3,0x20U,0x20U,0x8000231AU,
3,0x20U,0x80000308U,0x8000231AU,
4,0x20U,0x80000308U,0x20U,0x8000231AU,
2,0x20U,0x80002024U,
3,0x20U,0x20U,0x80002024U,
3,0x20U,0x80000308U,0x2024U,
4,0x20U,0x80000308U,0x20U,0x80002024U,
2,0x20U,0x2CU,
3,0x20U,0x20U,0x2CU,
3,0x20U,0x80000308U,0x2CU,
4,0x20U,0x80000308U,0x20U,0x2CU,
2,0x20U,0x80001100U,
3,0x20U,0x20U,0x80001100U,
3,0x20U,0x80000308U,0x80001100U,
4,0x20U,0x80000308U,0x20U,0x80001100U,
2,0x20U,0x800011A8U,
3,0x20U,0x20U,0x800011A8U,
3,0x20U,0x80000308U,0x800011A8U,
4,0x20U,0x80000308U,0x20U,0x800011A8U,
2,0x20U,0x80001160U,
3,0x20U,0x20U,0x80001160U,
3,0x20U,0x80000308U,0x80001160U,
4,0x20U,0x80000308U,0x20U,0x80001160U,
2,0x20U,0xAU,
3,0x20U,0x20U,0xAU,
3,0x20U,0x80000308U,0xAU,
4,0x20U,0x80000308U,0x20U,0xAU,
2,0x20U,0x85U,
3,0x20U,0x20U,0x85U,
3,0x20U,0x80000308U,0x85U,
4,0x20U,0x80000308U,0x20U,0x85U,
2,0x20U,0x800017D6U,
3,0x20U,0x20U,0x800017D6U,
3,0x20U,0x80000308U,0x17D6U,
4,0x20U,0x80000308U,0x20U,0x800017D6U,
2,0x20U,0x80000030U,
3,0x20U,0x20U,0x80000030U,
3,0x20U,0x80000308U,0x30U,
4,0x20U,0x80000308U,0x20U,0x80000030U,
2,0x20U,0x80002329U,
3,0x20U,0x20U,0x80002329U,
3,0x20U,0x80000308U,0x80002329U,
4,0x20U,0x80000308U,0x20U,0x80002329U,
2,0x20U,0x80000025U,
3,0x20U,0x20U,0x80000025U,
3,0x20U,0x80000308U,0x25U,
4,0x20U,0x80000308U,0x20U,0x80000025U,
2,0x20U,0x80000024U,
3,0x20U,0x20U,0x80000024U,
3,0x20U,0x80000308U,0x24U,
4,0x20U,0x80000308U,0x20U,0x80000024U,
2,0x20U,0x80000022U,
3,0x20U,0x20U,0x80000022U,
3,0x20U,0x80000308U,0x22U,
4,0x20U,0x80000308U,0x20U,0x80000022U,
2,0x20U,0x20U,
3,0x20U,0x20U,0x20U,
3,0x20U,0x80000308U,0x20U,
4,0x20U,0x80000308U,0x20U,0x20U,
2,0x20U,0x2FU,
3,0x20U,0x20U,0x2FU,
3,0x20U,0x80000308U,0x2FU,
4,0x20U,0x80000308U,0x20U,0x2FU,
2,0x20U,0x2060U,
3,0x20U,0x20U,0x2060U,
3,0x20U,0x80000308U,0x2060U,
4,0x20U,0x80000308U,0x20U,0x2060U,
2,0x20U,0x200BU,
3,0x20U,0x20U,0x200BU,
3,0x20U,0x80000308U,0x200BU,
4,0x20U,0x80000308U,0x20U,0x200BU,
2,0x20U,0x8001F1E6U,
3,0x20U,0x20U,0x8001F1E6U,
3,0x20U,0x80000308U,0x8001F1E6U,
4,0x20U,0x80000308U,0x20U,0x8001F1E6U,
2,0x20U,0x8000261DU,
3,0x20U,0x20U,0x8000261DU,
3,0x20U,0x80000308U,0x8000261DU,
4,0x20U,0x80000308U,0x20U,0x8000261DU,
2,0x20U,0x8001F3FBU,
3,0x20U,0x20U,0x8001F3FBU,
3,0x20U,0x80000308U,0x8001F3FBU,
4,0x20U,0x80000308U,0x20U,0x8001F3FBU,
2,0x20U,0x29U,
3,0x20U,0x20U,0x29U,
3,0x20U,0x80000308U,0x29U,
4,0x20U,0x80000308U,0x20U,0x29U,
2,0x20U,0x80000028U,
3,0x20U,0x20U,0x80000028U,
3,0x20U,0x80000308U,0x28U,
4,0x20U,0x80000308U,0x20U,0x80000028U,
2,0x20U,0x80000001U,
3,0x20U,0x20U,0x80000001U,
3,0x20U,0x80000308U,0x1U,
4,0x20U,0x80000308U,0x20U,0x80000001U,
2,0x20U,0x8000200DU,
3,0x20U,0x20U,0x8000200DU,
3,0x20U,0x80000308U,0x200DU,
4,0x20U,0x80000308U,0x20U,0x8000200DU,
2,0x20U,0x800000A7U,
3,0x20U,0x20U,0x800000A7U,
3,0x20U,0x80000308U,0xA7U,
4,0x20U,0x80000308U,0x20U,0x800000A7U,
2,0x20U,0x80050005U,
3,0x20U,0x20U,0x80050005U,
3,0x20U,0x80000308U,0x50005U,
4,0x20U,0x80000308U,0x20U,0x80050005U,
2,0x20U,0x80000E01U,
3,0x20U,0x20U,0x80000E01U,
3,0x20U,0x80000308U,0xE01U,
4,0x20U,0x80000308U,0x20U,0x80000E01U,
2,0x20U,0x80003041U,
3,0x20U,0x20U,0x80003041U,
3,0x20U,0x80000308U,0x3041U,
4,0x20U,0x80000308U,0x20U,0x80003041U,
2,0x2FU,0x80000023U,
3,0x2FU,0x20U,0x80000023U,
3,0x2FU,0x308U,0x80000023U,
4,0x2FU,0x308U,0x20U,0x80000023U,
2,0x2FU,0x80002014U,
3,0x2FU,0x20U,0x80002014U,
3,0x2FU,0x308U,0x80002014U,
4,0x2FU,0x308U,0x20U,0x80002014U,
2,0x2FU,0x9U,
3,0x2FU,0x20U,0x80000009U,
3,0x2FU,0x308U,0x9U,
4,0x2FU,0x308U,0x20U,0x80000009U,
2,0x2FU,0x800000B4U,
3,0x2FU,0x20U,0x800000B4U,
3,0x2FU,0x308U,0x800000B4U,
4,0x2FU,0x308U,0x20U,0x800000B4U,
2,0x2FU,0xBU,
3,0x2FU,0x20U,0xBU,
3,0x2FU,0x308U,0xBU,
4,0x2FU,0x308U,0x20U,0xBU,
2,0x2FU,0x8000FFFCU,
3,0x2FU,0x20U,0x8000FFFCU,
3,0x2FU,0x308U,0x8000FFFCU,
4,0x2FU,0x308U,0x20U,0x8000FFFCU,
2,0x2FU,0x7DU,
3,0x2FU,0x20U,0x7DU,
3,0x2FU,0x308U,0x7DU,
4,0x2FU,0x308U,0x20U,0x7DU,
2,0x2FU,0xDU,
3,0x2FU,0x20U,0xDU,
3,0x2FU,0x308U,0xDU,
4,0x2FU,0x308U,0x20U,0xDU,
2,0x2FU,0x21U,
3,0x2FU,0x20U,0x21U,
3,0x2FU,0x308U,0x21U,
4,0x2FU,0x308U,0x20U,0x21U,
2,0x2FU,0xA0U,
3,0x2FU,0x20U,0x800000A0U,
3,0x2FU,0x308U,0xA0U,
4,0x2FU,0x308U,0x20U,0x800000A0U,
2,0x2FU,0x8000AC00U,
3,0x2FU,0x20U,0x8000AC00U,
3,0x2FU,0x308U,0x8000AC00U,
4,0x2FU,0x308U,0x20U,0x8000AC00U,
2,0x2FU,0x8000AC01U,
3,0x2FU,0x20U,0x8000AC01U,
3,0x2FU,0x308U,0x8000AC01U,
4,0x2FU,0x308U,0x20U,0x8000AC01U,
2,0x2FU,0x5D0U,
3,0x2FU,0x20U,0x800005D0U,
3,0x2FU,0x308U,0x5D0U,
4,0x2FU,0x308U,0x20U,0x800005D0U,
2,0x2FU,0x2DU,
3,0x2FU,0x20U,0x8000002DU,
3,0x2FU,0x308U,0x2DU,
4,0x2FU,0x308U,0x20U,0x8000002DU,
2,0x2FU,0x8000231AU,
3,0x2FU,0x20U,0x8000231AU,
3,0x2FU,0x308U,0x8000231AU,
4,0x2FU,0x308U,0x20U,0x8000231AU,
2,0x2FU,0x2024U,
3,0x2FU,0x20U,0x80002024U,
3,0x2FU,0x308U,0x2024U,
4,0x2FU,0x308U,0x20U,0x80002024U,
2,0x2FU,0x2CU,
3,0x2FU,0x20U,0x2CU,
3,0x2FU,0x308U,0x2CU,
4,0x2FU,0x308U,0x20U,0x2CU,
2,0x2FU,0x80001100U,
3,0x2FU,0x20U,0x80001100U,
3,0x2FU,0x308U,0x80001100U,
4,0x2FU,0x308U,0x20U,0x80001100U,
2,0x2FU,0x800011A8U,
3,0x2FU,0x20U,0x800011A8U,
3,0x2FU,0x308U,0x800011A8U,
4,0x2FU,0x308U,0x20U,0x800011A8U,
2,0x2FU,0x80001160U,
3,0x2FU,0x20U,0x80001160U,
3,0x2FU,0x308U,0x80001160U,
4,0x2FU,0x308U,0x20U,0x80001160U,
2,0x2FU,0xAU,
3,0x2FU,0x20U,0xAU,
3,0x2FU,0x308U,0xAU,
4,0x2FU,0x308U,0x20U,0xAU,
2,0x2FU,0x85U,
3,0x2FU,0x20U,0x85U,
3,0x2FU,0x308U,0x85U,
4,0x2FU,0x308U,0x20U,0x85U,
2,0x2FU,0x17D6U,
3,0x2FU,0x20U,0x800017D6U,
3,0x2FU,0x308U,0x17D6U,
4,0x2FU,0x308U,0x20U,0x800017D6U,
2,0x2FU,0x80000030U,
3,0x2FU,0x20U,0x80000030U,
3,0x2FU,0x308U,0x80000030U,
4,0x2FU,0x308U,0x20U,0x80000030U,
2,0x2FU,0x80002329U,
3,0x2FU,0x20U,0x80002329U,
3,0x2FU,0x308U,0x80002329U,
4,0x2FU,0x308U,0x20U,0x80002329U,
2,0x2FU,0x80000025U,
3,0x2FU,0x20U,0x80000025U,
3,0x2FU,0x308U,0x80000025U,
4,0x2FU,0x308U,0x20U,0x80000025U,
2,0x2FU,0x80000024U,
3,0x2FU,0x20U,0x80000024U,
3,0x2FU,0x308U,0x80000024U,
4,0x2FU,0x308U,0x20U,0x80000024U,
2,0x2FU,0x22U,
3,0x2FU,0x20U,0x80000022U,
3,0x2FU,0x308U,0x22U,
4,0x2FU,0x308U,0x20U,0x80000022U,
2,0x2FU,0x20U,
3,0x2FU,0x20U,0x20U,
3,0x2FU,0x308U,0x20U,
4,0x2FU,0x308U,0x20U,0x20U,
2,0x2FU,0x2FU,
3,0x2FU,0x20U,0x2FU,
3,0x2FU,0x308U,0x2FU,
4,0x2FU,0x308U,0x20U,0x2FU,
2,0x2FU,0x2060U,
3,0x2FU,0x20U,0x2060U,
3,0x2FU,0x308U,0x2060U,
4,0x2FU,0x308U,0x20U,0x2060U,
2,0x2FU,0x200BU,
3,0x2FU,0x20U,0x200BU,
3,0x2FU,0x308U,0x200BU,
4,0x2FU,0x308U,0x20U,0x200BU,
2,0x2FU,0x8001F1E6U,
3,0x2FU,0x20U,0x8001F1E6U,
3,0x2FU,0x308U,0x8001F1E6U,
4,0x2FU,0x308U,0x20U,0x8001F1E6U,
2,0x2FU,0x8000261DU,
3,0x2FU,0x20U,0x8000261DU,
3,0x2FU,0x308U,0x8000261DU,
4,0x2FU,0x308U,0x20U,0x8000261DU,
2,0x2FU,0x8001F3FBU,
3,0x2FU,0x20U,0x8001F3FBU,
3,0x2FU,0x308U,0x8001F3FBU,
4,0x2FU,0x308U,0x20U,0x8001F3FBU,
2,0x2FU,0x29U,
3,0x2FU,0x20U,0x29U,
3,0x2FU,0x308U,0x29U,
4,0x2FU,0x308U,0x20U,0x29U,
2,0x2FU,0x80000028U,
3,0x2FU,0x20U,0x80000028U,
3,0x2FU,0x308U,0x80000028U,
4,0x2FU,0x308U,0x20U,0x80000028U,
2,0x2FU,0x1U,
3,0x2FU,0x20U,0x80000001U,
3,0x2FU,0x308U,0x1U,
4,0x2FU,0x308U,0x20U,0x80000001U,
2,0x2FU,0x200DU,
3,0x2FU,0x20U,0x8000200DU,
3,0x2FU,0x308U,0x200DU,
4,0x2FU,0x308U,0x20U,0x8000200DU,
2,0x2FU,0x800000A7U,
3,0x2FU,0x20U,0x800000A7U,
3,0x2FU,0x308U,0x800000A7U,
4,0x2FU,0x308U,0x20U,0x800000A7U,
2,0x2FU,0x80050005U,
3,0x2FU,0x20U,0x80050005U,
3,0x2FU,0x308U,0x80050005U,
4,0x2FU,0x308U,0x20U,0x80050005U,
2,0x2FU,0x80000E01U,
3,0x2FU,0x20U,0x80000E01U,
3,0x2FU,0x308U,0x80000E01U,
4,0x2FU,0x308U,0x20U,0x80000E01U,
2,0x2FU,0x3041U,
3,0x2FU,0x20U,0x80003041U,
3,0x2FU,0x308U,0x3041U,
4,0x2FU,0x308U,0x20U,0x80003041U,
2,0x2060U,0x23U,
3,0x2060U,0x20U,0x80000023U,
3,0x2060U,0x308U,0x23U,
4,0x2060U,0x308U,0x20U,0x80000023U,
2,0x2060U,0x2014U,
3,0x2060U,0x20U,0x80002014U,
3,0x2060U,0x308U,0x2014U,
4,0x2060U,0x308U,0x20U,0x80002014U,
2,0x2060U,0x9U,
3,0x2060U,0x20U,0x80000009U,
3,0x2060U,0x308U,0x9U,
4,0x2060U,0x308U,0x20U,0x80000009U,
2,0x2060U,0xB4U,
3,0x2060U,0x20U,0x800000B4U,
3,0x2060U,0x308U,0xB4U,
4,0x2060U,0x308U,0x20U,0x800000B4U,
2,0x2060U,0xBU,
3,0x2060U,0x20U,0xBU,
3,0x2060U,0x308U,0xBU,
4,0x2060U,0x308U,0x20U,0xBU,
2,0x2060U,0xFFFCU,
3,0x2060U,0x20U,0x8000FFFCU,
3,0x2060U,0x308U,0xFFFCU,
4,0x2060U,0x308U,0x20U,0x8000FFFCU,
2,0x2060U,0x7DU,
3,0x2060U,0x20U,0x7DU,
3,0x2060U,0x308U,0x7DU,
4,0x2060U,0x308U,0x20U,0x7DU,
2,0x2060U,0xDU,
3,0x2060U,0x20U,0xDU,
3,0x2060U,0x308U,0xDU,
4,0x2060U,0x308U,0x20U,0xDU,
2,0x2060U,0x21U,
3,0x2060U,0x20U,0x21U,
3,0x2060U,0x308U,0x21U,
4,0x2060U,0x308U,0x20U,0x21U,
2,0x2060U,0xA0U,
3,0x2060U,0x20U,0x800000A0U,
3,0x2060U,0x308U,0xA0U,
4,0x2060U,0x308U,0x20U,0x800000A0U,
2,0x2060U,0xAC00U,
3,0x2060U,0x20U,0x8000AC00U,
3,0x2060U,0x308U,0xAC00U,
4,0x2060U,0x308U,0x20U,0x8000AC00U,
2,0x2060U,0xAC01U,
3,0x2060U,0x20U,0x8000AC01U,
3,0x2060U,0x308U,0xAC01U,
4,0x2060U,0x308U,0x20U,0x8000AC01U,
2,0x2060U,0x5D0U,
3,0x2060U,0x20U,0x800005D0U,
3,0x2060U,0x308U,0x5D0U,
4,0x2060U,0x308U,0x20U,0x800005D0U,
2,0x2060U,0x2DU,
3,0x2060U,0x20U,0x8000002DU,
3,0x2060U,0x308U,0x2DU,
4,0x2060U,0x308U,0x20U,0x8000002DU,
2,0x2060U,0x231AU,
3,0x2060U,0x20U,0x8000231AU,
3,0x2060U,0x308U,0x231AU,
4,0x2060U,0x308U,0x20U,0x8000231AU,
2,0x2060U,0x2024U,
3,0x2060U,0x20U,0x80002024U,
3,0x2060U,0x308U,0x2024U,
4,0x2060U,0x308U,0x20U,0x80002024U,
2,0x2060U,0x2CU,
3,0x2060U,0x20U,0x2CU,
3,0x2060U,0x308U,0x2CU,
4,0x2060U,0x308U,0x20U,0x2CU,
2,0x2060U,0x1100U,
3,0x2060U,0x20U,0x80001100U,
3,0x2060U,0x308U,0x1100U,
4,0x2060U,0x308U,0x20U,0x80001100U,
2,0x2060U,0x11A8U,
3,0x2060U,0x20U,0x800011A8U,
3,0x2060U,0x308U,0x11A8U,
4,0x2060U,0x308U,0x20U,0x800011A8U,
2,0x2060U,0x1160U,
3,0x2060U,0x20U,0x80001160U,
3,0x2060U,0x308U,0x1160U,
4,0x2060U,0x308U,0x20U,0x80001160U,
2,0x2060U,0xAU,
3,0x2060U,0x20U,0xAU,
3,0x2060U,0x308U,0xAU,
4,0x2060U,0x308U,0x20U,0xAU,
2,0x2060U,0x85U,
3,0x2060U,0x20U,0x85U,
3,0x2060U,0x308U,0x85U,
4,0x2060U,0x308U,0x20U,0x85U,
2,0x2060U,0x17D6U,
3,0x2060U,0x20U,0x800017D6U,
3,0x2060U,0x308U,0x17D6U,
4,0x2060U,0x308U,0x20U,0x800017D6U,
2,0x2060U,0x30U,
3,0x2060U,0x20U,0x80000030U,
3,0x2060U,0x308U,0x30U,
4,0x2060U,0x308U,0x20U,0x80000030U,
2,0x2060U,0x2329U,
3,0x2060U,0x20U,0x80002329U,
3,0x2060U,0x308U,0x2329U,
4,0x2060U,0x308U,0x20U,0x80002329U,
2,0x2060U,0x25U,
3,0x2060U,0x20U,0x80000025U,
3,0x2060U,0x308U,0x25U,
4,0x2060U,0x308U,0x20U,0x80000025U,
2,0x2060U,0x24U,
3,0x2060U,0x20U,0x80000024U,
3,0x2060U,0x308U,0x24U,
4,0x2060U,0x308U,0x20U,0x80000024U,
2,0x2060U,0x22U,
3,0x2060U,0x20U,0x80000022U,
3,0x2060U,0x308U,0x22U,
4,0x2060U,0x308U,0x20U,0x80000022U,
2,0x2060U,0x20U,
3,0x2060U,0x20U,0x20U,
3,0x2060U,0x308U,0x20U,
4,0x2060U,0x308U,0x20U,0x20U,
2,0x2060U,0x2FU,
3,0x2060U,0x20U,0x2FU,
3,0x2060U,0x308U,0x2FU,
4,0x2060U,0x308U,0x20U,0x2FU,
2,0x2060U,0x2060U,
3,0x2060U,0x20U,0x2060U,
3,0x2060U,0x308U,0x2060U,
4,0x2060U,0x308U,0x20U,0x2060U,
2,0x2060U,0x200BU,
3,0x2060U,0x20U,0x200BU,
3,0x2060U,0x308U,0x200BU,
4,0x2060U,0x308U,0x20U,0x200BU,
2,0x2060U,0x1F1E6U,
3,0x2060U,0x20U,0x8001F1E6U,
3,0x2060U,0x308U,0x1F1E6U,
4,0x2060U,0x308U,0x20U,0x8001F1E6U,
2,0x2060U,0x261DU,
3,0x2060U,0x20U,0x8000261DU,
3,0x2060U,0x308U,0x261DU,
4,0x2060U,0x308U,0x20U,0x8000261DU,
2,0x2060U,0x1F3FBU,
3,0x2060U,0x20U,0x8001F3FBU,
3,0x2060U,0x308U,0x1F3FBU,
4,0x2060U,0x308U,0x20U,0x8001F3FBU,
2,0x2060U,0x29U,
3,0x2060U,0x20U,0x29U,
3,0x2060U,0x308U,0x29U,
4,0x2060U,0x308U,0x20U,0x29U,
2,0x2060U,0x28U,
3,0x2060U,0x20U,0x80000028U,
3,0x2060U,0x308U,0x28U,
4,0x2060U,0x308U,0x20U,0x80000028U,
2,0x2060U,0x1U,
3,0x2060U,0x20U,0x80000001U,
3,0x2060U,0x308U,0x1U,
4,0x2060U,0x308U,0x20U,0x80000001U,
2,0x2060U,0x200DU,
3,0x2060U,0x20U,0x8000200DU,
3,0x2060U,0x308U,0x200DU,
4,0x2060U,0x308U,0x20U,0x8000200DU,
2,0x2060U,0xA7U,
3,0x2060U,0x20U,0x800000A7U,
3,0x2060U,0x308U,0xA7U,
4,0x2060U,0x308U,0x20U,0x800000A7U,
2,0x2060U,0x50005U,
3,0x2060U,0x20U,0x80050005U,
3,0x2060U,0x308U,0x50005U,
4,0x2060U,0x308U,0x20U,0x80050005U,
2,0x2060U,0xE01U,
3,0x2060U,0x20U,0x80000E01U,
3,0x2060U,0x308U,0xE01U,
4,0x2060U,0x308U,0x20U,0x80000E01U,
2,0x2060U,0x3041U,
3,0x2060U,0x20U,0x80003041U,
3,0x2060U,0x308U,0x3041U,
4,0x2060U,0x308U,0x20U,0x80003041U,
2,0x200BU,0x80000023U,
3,0x200BU,0x20U,0x80000023U,
3,0x200BU,0x80000308U,0x23U,
4,0x200BU,0x80000308U,0x20U,0x80000023U,
2,0x200BU,0x80002014U,
3,0x200BU,0x20U,0x80002014U,
3,0x200BU,0x80000308U,0x80002014U,
4,0x200BU,0x80000308U,0x20U,0x80002014U,
2,0x200BU,0x80000009U,
3,0x200BU,0x20U,0x80000009U,
3,0x200BU,0x80000308U,0x9U,
4,0x200BU,0x80000308U,0x20U,0x80000009U,
2,0x200BU,0x800000B4U,
3,0x200BU,0x20U,0x800000B4U,
3,0x200BU,0x80000308U,0x800000B4U,
4,0x200BU,0x80000308U,0x20U,0x800000B4U,
2,0x200BU,0xBU,
3,0x200BU,0x20U,0xBU,
3,0x200BU,0x80000308U,0xBU,
4,0x200BU,0x80000308U,0x20U,0xBU,
2,0x200BU,0x8000FFFCU,
3,0x200BU,0x20U,0x8000FFFCU,
3,0x200BU,0x80000308U,0x8000FFFCU,
4,0x200BU,0x80000308U,0x20U,0x8000FFFCU,
2,0x200BU,0x8000007DU,
3,0x200BU,0x20U,0x8000007DU,
3,0x200BU,0x80000308U,0x7DU,
4,0x200BU,0x80000308U,0x20U,0x7DU,
2,0x200BU,0xDU,
3,0x200BU,0x20U,0xDU,
3,0x200BU,0x80000308U,0xDU,
4,0x200BU,0x80000308U,0x20U,0xDU,
2,0x200BU,0x80000021U,
3,0x200BU,0x20U,0x80000021U,
3,0x200BU,0x80000308U,0x21U,
4,0x200BU,0x80000308U,0x20U,0x21U,
2,0x200BU,0x800000A0U,
3,0x200BU,0x20U,0x800000A0U,
3,0x200BU,0x80000308U,0xA0U,
4,0x200BU,0x80000308U,0x20U,0x800000A0U,
2,0x200BU,0x8000AC00U,
3,0x200BU,0x20U,0x8000AC00U,
3,0x200BU,0x80000308U,0x8000AC00U,
4,0x200BU,0x80000308U,0x20U,0x8000AC00U,
2,0x200BU,0x8000AC01U,
3,0x200BU,0x20U,0x8000AC01U,
3,0x200BU,0x80000308U,0x8000AC01U,
4,0x200BU,0x80000308U,0x20U,0x8000AC01U,
2,0x200BU,0x800005D0U,
3,0x200BU,0x20U,0x800005D0U,
3,0x200BU,0x80000308U,0x5D0U,
4,0x200BU,0x80000308U,0x20U,0x800005D0U,
2,0x200BU,0x8000002DU,
3,0x200BU,0x20U,0x8000002DU,
3,0x200BU,0x80000308U,0x2DU,
4,0x200BU,0x80000308U,0x20U,0x8000002DU,
2,0x200BU,0x8000231AU,
3,0x200BU,0x20U,0x8000231AU,
3,0x200BU,0x80000308U,0x8000231AU,
4,0x200BU,0x80000308U,0x20U,0x8000231AU,
2,0x200BU,0x80002024U,
3,0x200BU,0x20U,0x80002024U,
3,0x200BU,0x80000308U,0x2024U,
4,0x200BU,0x80000308U,0x20U,0x80002024U,
2,0x200BU,0x8000002CU,
3,0x200BU,0x20U,0x8000002CU,
3,0x200BU,0x80000308U,0x2CU,
4,0x200BU,0x80000308U,0x20U,0x2CU,
2,0x200BU,0x80001100U,
3,0x200BU,0x20U,0x80001100U,
3,0x200BU,0x80000308U,0x80001100U,
4,0x200BU,0x80000308U,0x20U,0x80001100U,
2,0x200BU,0x800011A8U,
3,0x200BU,0x20U,0x800011A8U,
3,0x200BU,0x80000308U,0x800011A8U,
4,0x200BU,0x80000308U,0x20U,0x800011A8U,
2,0x200BU,0x80001160U,
3,0x200BU,0x20U,0x80001160U,
3,0x200BU,0x80000308U,0x80001160U,
4,0x200BU,0x80000308U,0x20U,0x80001160U,
2,0x200BU,0xAU,
3,0x200BU,0x20U,0xAU,
3,0x200BU,0x80000308U,0xAU,
4,0x200BU,0x80000308U,0x20U,0xAU,
2,0x200BU,0x85U,
3,0x200BU,0x20U,0x85U,
3,0x200BU,0x80000308U,0x85U,
4,0x200BU,0x80000308U,0x20U,0x85U,
2,0x200BU,0x800017D6U,
3,0x200BU,0x20U,0x800017D6U,
3,0x200BU,0x80000308U,0x17D6U,
4,0x200BU,0x80000308U,0x20U,0x800017D6U,
2,0x200BU,0x80000030U,
3,0x200BU,0x20U,0x80000030U,
3,0x200BU,0x80000308U,0x30U,
4,0x200BU,0x80000308U,0x20U,0x80000030U,
2,0x200BU,0x80002329U,
3,0x200BU,0x20U,0x80002329U,
3,0x200BU,0x80000308U,0x80002329U,
4,0x200BU,0x80000308U,0x20U,0x80002329U,
2,0x200BU,0x80000025U,
3,0x200BU,0x20U,0x80000025U,
3,0x200BU,0x80000308U,0x25U,
4,0x200BU,0x80000308U,0x20U,0x80000025U,
2,0x200BU,0x80000024U,
3,0x200BU,0x20U,0x80000024U,
3,0x200BU,0x80000308U,0x24U,
4,0x200BU,0x80000308U,0x20U,0x80000024U,
2,0x200BU,0x80000022U,
3,0x200BU,0x20U,0x80000022U,
3,0x200BU,0x80000308U,0x22U,
4,0x200BU,0x80000308U,0x20U,0x80000022U,
2,0x200BU,0x20U,
3,0x200BU,0x20U,0x20U,
3,0x200BU,0x80000308U,0x20U,
4,0x200BU,0x80000308U,0x20U,0x20U,
2,0x200BU,0x8000002FU,
3,0x200BU,0x20U,0x8000002FU,
3,0x200BU,0x80000308U,0x2FU,
4,0x200BU,0x80000308U,0x20U,0x2FU,
2,0x200BU,0x80002060U,
3,0x200BU,0x20U,0x80002060U,
3,0x200BU,0x80000308U,0x2060U,
4,0x200BU,0x80000308U,0x20U,0x2060U,
2,0x200BU,0x200BU,
3,0x200BU,0x20U,0x200BU,
3,0x200BU,0x80000308U,0x200BU,
4,0x200BU,0x80000308U,0x20U,0x200BU,
2,0x200BU,0x8001F1E6U,
3,0x200BU,0x20U,0x8001F1E6U,
3,0x200BU,0x80000308U,0x8001F1E6U,
4,0x200BU,0x80000308U,0x20U,0x8001F1E6U,
2,0x200BU,0x8000261DU,
3,0x200BU,0x20U,0x8000261DU,
3,0x200BU,0x80000308U,0x8000261DU,
4,0x200BU,0x80000308U,0x20U,0x8000261DU,
2,0x200BU,0x8001F3FBU,
3,0x200BU,0x20U,0x8001F3FBU,
3,0x200BU,0x80000308U,0x8001F3FBU,
4,0x200BU,0x80000308U,0x20U,0x8001F3FBU,
2,0x200BU,0x80000029U,
3,0x200BU,0x20U,0x80000029U,
3,0x200BU,0x80000308U,0x29U,
4,0x200BU,0x80000308U,0x20U,0x29U,
2,0x200BU,0x80000028U,
3,0x200BU,0x20U,0x80000028U,
3,0x200BU,0x80000308U,0x28U,
4,0x200BU,0x80000308U,0x20U,0x80000028U,
2,0x200BU,0x80000001U,
3,0x200BU,0x20U,0x80000001U,
3,0x200BU,0x80000308U,0x1U,
4,0x200BU,0x80000308U,0x20U,0x80000001U,
2,0x200BU,0x8000200DU,
3,0x200BU,0x20U,0x8000200DU,
3,0x200BU,0x80000308U,0x200DU,
4,0x200BU,0x80000308U,0x20U,0x8000200DU,
2,0x200BU,0x800000A7U,
3,0x200BU,0x20U,0x800000A7U,
3,0x200BU,0x80000308U,0xA7U,
4,0x200BU,0x80000308U,0x20U,0x800000A7U,
2,0x200BU,0x80050005U,
3,0x200BU,0x20U,0x80050005U,
3,0x200BU,0x80000308U,0x50005U,
4,0x200BU,0x80000308U,0x20U,0x80050005U,
2,0x200BU,0x80000E01U,
3,0x200BU,0x20U,0x80000E01U,
3,0x200BU,0x80000308U,0xE01U,
4,0x200BU,0x80000308U,0x20U,0x80000E01U,
2,0x200BU,0x80003041U,
3,0x200BU,0x20U,0x80003041U,
3,0x200BU,0x80000308U,0x3041U,
4,0x200BU,0x80000308U,0x20U,0x80003041U,
2,0x1F1E6U,0x80000023U,
3,0x1F1E6U,0x20U,0x80000023U,
3,0x1F1E6U,0x308U,0x80000023U,
4,0x1F1E6U,0x308U,0x20U,0x80000023U,
2,0x1F1E6U,0x80002014U,
3,0x1F1E6U,0x20U,0x80002014U,
3,0x1F1E6U,0x308U,0x80002014U,
4,0x1F1E6U,0x308U,0x20U,0x80002014U,
2,0x1F1E6U,0x9U,
3,0x1F1E6U,0x20U,0x80000009U,
3,0x1F1E6U,0x308U,0x9U,
4,0x1F1E6U,0x308U,0x20U,0x80000009U,
2,0x1F1E6U,0x800000B4U,
3,0x1F1E6U,0x20U,0x800000B4U,
3,0x1F1E6U,0x308U,0x800000B4U,
4,0x1F1E6U,0x308U,0x20U,0x800000B4U,
2,0x1F1E6U,0xBU,
3,0x1F1E6U,0x20U,0xBU,
3,0x1F1E6U,0x308U,0xBU,
4,0x1F1E6U,0x308U,0x20U,0xBU,
2,0x1F1E6U,0x8000FFFCU,
3,0x1F1E6U,0x20U,0x8000FFFCU,
3,0x1F1E6U,0x308U,0x8000FFFCU,
4,0x1F1E6U,0x308U,0x20U,0x8000FFFCU,
2,0x1F1E6U,0x7DU,
3,0x1F1E6U,0x20U,0x7DU,
3,0x1F1E6U,0x308U,0x7DU,
4,0x1F1E6U,0x308U,0x20U,0x7DU,
2,0x1F1E6U,0xDU,
3,0x1F1E6U,0x20U,0xDU,
3,0x1F1E6U,0x308U,0xDU,
4,0x1F1E6U,0x308U,0x20U,0xDU,
2,0x1F1E6U,0x21U,
3,0x1F1E6U,0x20U,0x21U,
3,0x1F1E6U,0x308U,0x21U,
4,0x1F1E6U,0x308U,0x20U,0x21U,
2,0x1F1E6U,0xA0U,
3,0x1F1E6U,0x20U,0x800000A0U,
3,0x1F1E6U,0x308U,0xA0U,
4,0x1F1E6U,0x308U,0x20U,0x800000A0U,
2,0x1F1E6U,0x8000AC00U,
3,0x1F1E6U,0x20U,0x8000AC00U,
3,0x1F1E6U,0x308U,0x8000AC00U,
4,0x1F1E6U,0x308U,0x20U,0x8000AC00U,
2,0x1F1E6U,0x8000AC01U,
3,0x1F1E6U,0x20U,0x8000AC01U,
3,0x1F1E6U,0x308U,0x8000AC01U,
4,0x1F1E6U,0x308U,0x20U,0x8000AC01U,
2,0x1F1E6U,0x800005D0U,
3,0x1F1E6U,0x20U,0x800005D0U,
3,0x1F1E6U,0x308U,0x800005D0U,
4,0x1F1E6U,0x308U,0x20U,0x800005D0U,
2,0x1F1E6U,0x2DU,
3,0x1F1E6U,0x20U,0x8000002DU,
3,0x1F1E6U,0x308U,0x2DU,
4,0x1F1E6U,0x308U,0x20U,0x8000002DU,
2,0x1F1E6U,0x8000231AU,
3,0x1F1E6U,0x20U,0x8000231AU,
3,0x1F1E6U,0x308U,0x8000231AU,
4,0x1F1E6U,0x308U,0x20U,0x8000231AU,
2,0x1F1E6U,0x2024U,
3,0x1F1E6U,0x20U,0x80002024U,
3,0x1F1E6U,0x308U,0x2024U,
4,0x1F1E6U,0x308U,0x20U,0x80002024U,
2,0x1F1E6U,0x2CU,
3,0x1F1E6U,0x20U,0x2CU,
3,0x1F1E6U,0x308U,0x2CU,
4,0x1F1E6U,0x308U,0x20U,0x2CU,
2,0x1F1E6U,0x80001100U,
3,0x1F1E6U,0x20U,0x80001100U,
3,0x1F1E6U,0x308U,0x80001100U,
4,0x1F1E6U,0x308U,0x20U,0x80001100U,
2,0x1F1E6U,0x800011A8U,
3,0x1F1E6U,0x20U,0x800011A8U,
3,0x1F1E6U,0x308U,0x800011A8U,
4,0x1F1E6U,0x308U,0x20U,0x800011A8U,
2,0x1F1E6U,0x80001160U,
3,0x1F1E6U,0x20U,0x80001160U,
3,0x1F1E6U,0x308U,0x80001160U,
4,0x1F1E6U,0x308U,0x20U,0x80001160U,
2,0x1F1E6U,0xAU,
3,0x1F1E6U,0x20U,0xAU,
3,0x1F1E6U,0x308U,0xAU,
4,0x1F1E6U,0x308U,0x20U,0xAU,
2,0x1F1E6U,0x85U,
3,0x1F1E6U,0x20U,0x85U,
3,0x1F1E6U,0x308U,0x85U,
4,0x1F1E6U,0x308U,0x20U,0x85U,
2,0x1F1E6U,0x17D6U,
3,0x1F1E6U,0x20U,0x800017D6U,
3,0x1F1E6U,0x308U,0x17D6U,
4,0x1F1E6U,0x308U,0x20U,0x800017D6U,
2,0x1F1E6U,0x80000030U,
3,0x1F1E6U,0x20U,0x80000030U,
3,0x1F1E6U,0x308U,0x80000030U,
4,0x1F1E6U,0x308U,0x20U,0x80000030U,
2,0x1F1E6U,0x80002329U,
3,0x1F1E6U,0x20U,0x80002329U,
3,0x1F1E6U,0x308U,0x80002329U,
4,0x1F1E6U,0x308U,0x20U,0x80002329U,
2,0x1F1E6U,0x80000025U,
3,0x1F1E6U,0x20U,0x80000025U,
3,0x1F1E6U,0x308U,0x80000025U,
4,0x1F1E6U,0x308U,0x20U,0x80000025U,
2,0x1F1E6U,0x80000024U,
3,0x1F1E6U,0x20U,0x80000024U,
3,0x1F1E6U,0x308U,0x80000024U,
4,0x1F1E6U,0x308U,0x20U,0x80000024U,
2,0x1F1E6U,0x22U,
3,0x1F1E6U,0x20U,0x80000022U,
3,0x1F1E6U,0x308U,0x22U,
4,0x1F1E6U,0x308U,0x20U,0x80000022U,
2,0x1F1E6U,0x20U,
3,0x1F1E6U,0x20U,0x20U,
3,0x1F1E6U,0x308U,0x20U,
4,0x1F1E6U,0x308U,0x20U,0x20U,
2,0x1F1E6U,0x2FU,
3,0x1F1E6U,0x20U,0x2FU,
3,0x1F1E6U,0x308U,0x2FU,
4,0x1F1E6U,0x308U,0x20U,0x2FU,
2,0x1F1E6U,0x2060U,
3,0x1F1E6U,0x20U,0x2060U,
3,0x1F1E6U,0x308U,0x2060U,
4,0x1F1E6U,0x308U,0x20U,0x2060U,
2,0x1F1E6U,0x200BU,
3,0x1F1E6U,0x20U,0x200BU,
3,0x1F1E6U,0x308U,0x200BU,
4,0x1F1E6U,0x308U,0x20U,0x200BU,
2,0x1F1E6U,0x1F1E6U,
3,0x1F1E6U,0x20U,0x8001F1E6U,
3,0x1F1E6U,0x308U,0x1F1E6U,
4,0x1F1E6U,0x308U,0x20U,0x8001F1E6U,
2,0x1F1E6U,0x8000261DU,
3,0x1F1E6U,0x20U,0x8000261DU,
3,0x1F1E6U,0x308U,0x8000261DU,
4,0x1F1E6U,0x308U,0x20U,0x8000261DU,
2,0x1F1E6U,0x8001F3FBU,
3,0x1F1E6U,0x20U,0x8001F3FBU,
3,0x1F1E6U,0x308U,0x8001F3FBU,
4,0x1F1E6U,0x308U,0x20U,0x8001F3FBU,
2,0x1F1E6U,0x29U,
3,0x1F1E6U,0x20U,0x29U,
3,0x1F1E6U,0x308U,0x29U,
4,0x1F1E6U,0x308U,0x20U,0x29U,
2,0x1F1E6U,0x80000028U,
3,0x1F1E6U,0x20U,0x80000028U,
3,0x1F1E6U,0x308U,0x80000028U,
4,0x1F1E6U,0x308U,0x20U,0x80000028U,
2,0x1F1E6U,0x1U,
3,0x1F1E6U,0x20U,0x80000001U,
3,0x1F1E6U,0x308U,0x1U,
4,0x1F1E6U,0x308U,0x20U,0x80000001U,
2,0x1F1E6U,0x200DU,
3,0x1F1E6U,0x20U,0x8000200DU,
3,0x1F1E6U,0x308U,0x200DU,
4,0x1F1E6U,0x308U,0x20U,0x8000200DU,
2,0x1F1E6U,0x800000A7U,
3,0x1F1E6U,0x20U,0x800000A7U,
3,0x1F1E6U,0x308U,0x800000A7U,
4,0x1F1E6U,0x308U,0x20U,0x800000A7U,
2,0x1F1E6U,0x80050005U,
3,0x1F1E6U,0x20U,0x80050005U,
3,0x1F1E6U,0x308U,0x80050005U,
4,0x1F1E6U,0x308U,0x20U,0x80050005U,
2,0x1F1E6U,0x80000E01U,
3,0x1F1E6U,0x20U,0x80000E01U,
3,0x1F1E6U,0x308U,0x80000E01U,
4,0x1F1E6U,0x308U,0x20U,0x80000E01U,
2,0x1F1E6U,0x3041U,
3,0x1F1E6U,0x20U,0x80003041U,
3,0x1F1E6U,0x308U,0x3041U,
4,0x1F1E6U,0x308U,0x20U,0x80003041U,
2,0x261DU,0x80000023U,
3,0x261DU,0x20U,0x80000023U,
3,0x261DU,0x308U,0x80000023U,
4,0x261DU,0x308U,0x20U,0x80000023U,
2,0x261DU,0x80002014U,
3,0x261DU,0x20U,0x80002014U,
3,0x261DU,0x308U,0x80002014U,
4,0x261DU,0x308U,0x20U,0x80002014U,
2,0x261DU,0x9U,
3,0x261DU,0x20U,0x80000009U,
3,0x261DU,0x308U,0x9U,
4,0x261DU,0x308U,0x20U,0x80000009U,
2,0x261DU,0x800000B4U,
3,0x261DU,0x20U,0x800000B4U,
3,0x261DU,0x308U,0x800000B4U,
4,0x261DU,0x308U,0x20U,0x800000B4U,
2,0x261DU,0xBU,
3,0x261DU,0x20U,0xBU,
3,0x261DU,0x308U,0xBU,
4,0x261DU,0x308U,0x20U,0xBU,
2,0x261DU,0x8000FFFCU,
3,0x261DU,0x20U,0x8000FFFCU,
3,0x261DU,0x308U,0x8000FFFCU,
4,0x261DU,0x308U,0x20U,0x8000FFFCU,
2,0x261DU,0x7DU,
3,0x261DU,0x20U,0x7DU,
3,0x261DU,0x308U,0x7DU,
4,0x261DU,0x308U,0x20U,0x7DU,
2,0x261DU,0xDU,
3,0x261DU,0x20U,0xDU,
3,0x261DU,0x308U,0xDU,
4,0x261DU,0x308U,0x20U,0xDU,
2,0x261DU,0x21U,
3,0x261DU,0x20U,0x21U,
3,0x261DU,0x308U,0x21U,
4,0x261DU,0x308U,0x20U,0x21U,
2,0x261DU,0xA0U,
3,0x261DU,0x20U,0x800000A0U,
3,0x261DU,0x308U,0xA0U,
4,0x261DU,0x308U,0x20U,0x800000A0U,
2,0x261DU,0x8000AC00U,
3,0x261DU,0x20U,0x8000AC00U,
3,0x261DU,0x308U,0x8000AC00U,
4,0x261DU,0x308U,0x20U,0x8000AC00U,
2,0x261DU,0x8000AC01U,
3,0x261DU,0x20U,0x8000AC01U,
3,0x261DU,0x308U,0x8000AC01U,
4,0x261DU,0x308U,0x20U,0x8000AC01U,
2,0x261DU,0x800005D0U,
3,0x261DU,0x20U,0x800005D0U,
3,0x261DU,0x308U,0x800005D0U,
4,0x261DU,0x308U,0x20U,0x800005D0U,
2,0x261DU,0x2DU,
3,0x261DU,0x20U,0x8000002DU,
3,0x261DU,0x308U,0x2DU,
4,0x261DU,0x308U,0x20U,0x8000002DU,
2,0x261DU,0x8000231AU,
3,0x261DU,0x20U,0x8000231AU,
3,0x261DU,0x308U,0x8000231AU,
4,0x261DU,0x308U,0x20U,0x8000231AU,
2,0x261DU,0x2024U,
3,0x261DU,0x20U,0x80002024U,
3,0x261DU,0x308U,0x2024U,
4,0x261DU,0x308U,0x20U,0x80002024U,
2,0x261DU,0x2CU,
3,0x261DU,0x20U,0x2CU,
3,0x261DU,0x308U,0x2CU,
4,0x261DU,0x308U,0x20U,0x2CU,
2,0x261DU,0x80001100U,
3,0x261DU,0x20U,0x80001100U,
3,0x261DU,0x308U,0x80001100U,
4,0x261DU,0x308U,0x20U,0x80001100U,
2,0x261DU,0x800011A8U,
3,0x261DU,0x20U,0x800011A8U,
3,0x261DU,0x308U,0x800011A8U,
4,0x261DU,0x308U,0x20U,0x800011A8U,
2,0x261DU,0x80001160U,
3,0x261DU,0x20U,0x80001160U,
3,0x261DU,0x308U,0x80001160U,
4,0x261DU,0x308U,0x20U,0x80001160U,
2,0x261DU,0xAU,
3,0x261DU,0x20U,0xAU,
3,0x261DU,0x308U,0xAU,
4,0x261DU,0x308U,0x20U,0xAU,
2,0x261DU,0x85U,
3,0x261DU,0x20U,0x85U,
3,0x261DU,0x308U,0x85U,
4,0x261DU,0x308U,0x20U,0x85U,
2,0x261DU,0x17D6U,
3,0x261DU,0x20U,0x800017D6U,
3,0x261DU,0x308U,0x17D6U,
4,0x261DU,0x308U,0x20U,0x800017D6U,
2,0x261DU,0x80000030U,
3,0x261DU,0x20U,0x80000030U,
3,0x261DU,0x308U,0x80000030U,
4,0x261DU,0x308U,0x20U,0x80000030U,
2,0x261DU,0x80002329U,
3,0x261DU,0x20U,0x80002329U,
3,0x261DU,0x308U,0x80002329U,
4,0x261DU,0x308U,0x20U,0x80002329U,
2,0x261DU,0x25U,
3,0x261DU,0x20U,0x80000025U,
3,0x261DU,0x308U,0x25U,
4,0x261DU,0x308U,0x20U,0x80000025U,
2,0x261DU,0x80000024U,
3,0x261DU,0x20U,0x80000024U,
3,0x261DU,0x308U,0x80000024U,
4,0x261DU,0x308U,0x20U,0x80000024U,
2,0x261DU,0x22U,
3,0x261DU,0x20U,0x80000022U,
3,0x261DU,0x308U,0x22U,
4,0x261DU,0x308U,0x20U,0x80000022U,
2,0x261DU,0x20U,
3,0x261DU,0x20U,0x20U,
3,0x261DU,0x308U,0x20U,
4,0x261DU,0x308U,0x20U,0x20U,
2,0x261DU,0x2FU,
3,0x261DU,0x20U,0x2FU,
3,0x261DU,0x308U,0x2FU,
4,0x261DU,0x308U,0x20U,0x2FU,
2,0x261DU,0x2060U,
3,0x261DU,0x20U,0x2060U,
3,0x261DU,0x308U,0x2060U,
4,0x261DU,0x308U,0x20U,0x2060U,
2,0x261DU,0x200BU,
3,0x261DU,0x20U,0x200BU,
3,0x261DU,0x308U,0x200BU,
4,0x261DU,0x308U,0x20U,0x200BU,
2,0x261DU,0x8001F1E6U,
3,0x261DU,0x20U,0x8001F1E6U,
3,0x261DU,0x308U,0x8001F1E6U,
4,0x261DU,0x308U,0x20U,0x8001F1E6U,
2,0x261DU,0x8000261DU,
3,0x261DU,0x20U,0x8000261DU,
3,0x261DU,0x308U,0x8000261DU,
4,0x261DU,0x308U,0x20U,0x8000261DU,
2,0x261DU,0x1F3FBU,
3,0x261DU,0x20U,0x8001F3FBU,
3,0x261DU,0x308U,0x1F3FBU,
4,0x261DU,0x308U,0x20U,0x8001F3FBU,
2,0x261DU,0x29U,
3,0x261DU,0x20U,0x29U,
3,0x261DU,0x308U,0x29U,
4,0x261DU,0x308U,0x20U,0x29U,
2,0x261DU,0x80000028U,
3,0x261DU,0x20U,0x80000028U,
3,0x261DU,0x308U,0x80000028U,
4,0x261DU,0x308U,0x20U,0x80000028U,
2,0x261DU,0x1U,
3,0x261DU,0x20U,0x80000001U,
3,0x261DU,0x308U,0x1U,
4,0x261DU,0x308U,0x20U,0x80000001U,
2,0x261DU,0x200DU,
3,0x261DU,0x20U,0x8000200DU,
3,0x261DU,0x308U,0x200DU,
4,0x261DU,0x308U,0x20U,0x8000200DU,
2,0x261DU,0x800000A7U,
3,0x261DU,0x20U,0x800000A7U,
3,0x261DU,0x308U,0x800000A7U,
4,0x261DU,0x308U,0x20U,0x800000A7U,
2,0x261DU,0x80050005U,
3,0x261DU,0x20U,0x80050005U,
3,0x261DU,0x308U,0x80050005U,
4,0x261DU,0x308U,0x20U,0x80050005U,
2,0x261DU,0x80000E01U,
3,0x261DU,0x20U,0x80000E01U,
3,0x261DU,0x308U,0x80000E01U,
4,0x261DU,0x308U,0x20U,0x80000E01U,
2,0x261DU,0x3041U,
3,0x261DU,0x20U,0x80003041U,
3,0x261DU,0x308U,0x3041U,
4,0x261DU,0x308U,0x20U,0x80003041U,
2,0x1F3FBU,0x80000023U,
3,0x1F3FBU,0x20U,0x80000023U,
3,0x1F3FBU,0x308U,0x80000023U,
4,0x1F3FBU,0x308U,0x20U,0x80000023U,
2,0x1F3FBU,0x80002014U,
3,0x1F3FBU,0x20U,0x80002014U,
3,0x1F3FBU,0x308U,0x80002014U,
4,0x1F3FBU,0x308U,0x20U,0x80002014U,
2,0x1F3FBU,0x9U,
3,0x1F3FBU,0x20U,0x80000009U,
3,0x1F3FBU,0x308U,0x9U,
4,0x1F3FBU,0x308U,0x20U,0x80000009U,
2,0x1F3FBU,0x800000B4U,
3,0x1F3FBU,0x20U,0x800000B4U,
3,0x1F3FBU,0x308U,0x800000B4U,
4,0x1F3FBU,0x308U,0x20U,0x800000B4U,
2,0x1F3FBU,0xBU,
3,0x1F3FBU,0x20U,0xBU,
3,0x1F3FBU,0x308U,0xBU,
4,0x1F3FBU,0x308U,0x20U,0xBU,
2,0x1F3FBU,0x8000FFFCU,
3,0x1F3FBU,0x20U,0x8000FFFCU,
3,0x1F3FBU,0x308U,0x8000FFFCU,
4,0x1F3FBU,0x308U,0x20U,0x8000FFFCU,
2,0x1F3FBU,0x7DU,
3,0x1F3FBU,0x20U,0x7DU,
3,0x1F3FBU,0x308U,0x7DU,
4,0x1F3FBU,0x308U,0x20U,0x7DU,
2,0x1F3FBU,0xDU,
3,0x1F3FBU,0x20U,0xDU,
3,0x1F3FBU,0x308U,0xDU,
4,0x1F3FBU,0x308U,0x20U,0xDU,
2,0x1F3FBU,0x21U,
3,0x1F3FBU,0x20U,0x21U,
3,0x1F3FBU,0x308U,0x21U,
4,0x1F3FBU,0x308U,0x20U,0x21U,
2,0x1F3FBU,0xA0U,
3,0x1F3FBU,0x20U,0x800000A0U,
3,0x1F3FBU,0x308U,0xA0U,
4,0x1F3FBU,0x308U,0x20U,0x800000A0U,
2,0x1F3FBU,0x8000AC00U,
3,0x1F3FBU,0x20U,0x8000AC00U,
3,0x1F3FBU,0x308U,0x8000AC00U,
4,0x1F3FBU,0x308U,0x20U,0x8000AC00U,
2,0x1F3FBU,0x8000AC01U,
3,0x1F3FBU,0x20U,0x8000AC01U,
3,0x1F3FBU,0x308U,0x8000AC01U,
4,0x1F3FBU,0x308U,0x20U,0x8000AC01U,
2,0x1F3FBU,0x800005D0U,
3,0x1F3FBU,0x20U,0x800005D0U,
3,0x1F3FBU,0x308U,0x800005D0U,
4,0x1F3FBU,0x308U,0x20U,0x800005D0U,
2,0x1F3FBU,0x2DU,
3,0x1F3FBU,0x20U,0x8000002DU,
3,0x1F3FBU,0x308U,0x2DU,
4,0x1F3FBU,0x308U,0x20U,0x8000002DU,
2,0x1F3FBU,0x8000231AU,
3,0x1F3FBU,0x20U,0x8000231AU,
3,0x1F3FBU,0x308U,0x8000231AU,
4,0x1F3FBU,0x308U,0x20U,0x8000231AU,
2,0x1F3FBU,0x2024U,
3,0x1F3FBU,0x20U,0x80002024U,
3,0x1F3FBU,0x308U,0x2024U,
4,0x1F3FBU,0x308U,0x20U,0x80002024U,
2,0x1F3FBU,0x2CU,
3,0x1F3FBU,0x20U,0x2CU,
3,0x1F3FBU,0x308U,0x2CU,
4,0x1F3FBU,0x308U,0x20U,0x2CU,
2,0x1F3FBU,0x80001100U,
3,0x1F3FBU,0x20U,0x80001100U,
3,0x1F3FBU,0x308U,0x80001100U,
4,0x1F3FBU,0x308U,0x20U,0x80001100U,
2,0x1F3FBU,0x800011A8U,
3,0x1F3FBU,0x20U,0x800011A8U,
3,0x1F3FBU,0x308U,0x800011A8U,
4,0x1F3FBU,0x308U,0x20U,0x800011A8U,
2,0x1F3FBU,0x80001160U,
3,0x1F3FBU,0x20U,0x80001160U,
3,0x1F3FBU,0x308U,0x80001160U,
4,0x1F3FBU,0x308U,0x20U,0x80001160U,
2,0x1F3FBU,0xAU,
3,0x1F3FBU,0x20U,0xAU,
3,0x1F3FBU,0x308U,0xAU,
4,0x1F3FBU,0x308U,0x20U,0xAU,
2,0x1F3FBU,0x85U,
3,0x1F3FBU,0x20U,0x85U,
3,0x1F3FBU,0x308U,0x85U,
4,0x1F3FBU,0x308U,0x20U,0x85U,
2,0x1F3FBU,0x17D6U,
3,0x1F3FBU,0x20U,0x800017D6U,
3,0x1F3FBU,0x308U,0x17D6U,
4,0x1F3FBU,0x308U,0x20U,0x800017D6U,
2,0x1F3FBU,0x80000030U,
3,0x1F3FBU,0x20U,0x80000030U,
3,0x1F3FBU,0x308U,0x80000030U,
4,0x1F3FBU,0x308U,0x20U,0x80000030U,
2,0x1F3FBU,0x80002329U,
3,0x1F3FBU,0x20U,0x80002329U,
3,0x1F3FBU,0x308U,0x80002329U,
4,0x1F3FBU,0x308U,0x20U,0x80002329U,
2,0x1F3FBU,0x25U,
3,0x1F3FBU,0x20U,0x80000025U,
3,0x1F3FBU,0x308U,0x25U,
4,0x1F3FBU,0x308U,0x20U,0x80000025U,
2,0x1F3FBU,0x80000024U,
3,0x1F3FBU,0x20U,0x80000024U,
3,0x1F3FBU,0x308U,0x80000024U,
4,0x1F3FBU,0x308U,0x20U,0x80000024U,
2,0x1F3FBU,0x22U,
3,0x1F3FBU,0x20U,0x80000022U,
3,0x1F3FBU,0x308U,0x22U,
4,0x1F3FBU,0x308U,0x20U,0x80000022U,
2,0x1F3FBU,0x20U,
3,0x1F3FBU,0x20U,0x20U,
3,0x1F3FBU,0x308U,0x20U,
4,0x1F3FBU,0x308U,0x20U,0x20U,
2,0x1F3FBU,0x2FU,
3,0x1F3FBU,0x20U,0x2FU,
3,0x1F3FBU,0x308U,0x2FU,
4,0x1F3FBU,0x308U,0x20U,0x2FU,
2,0x1F3FBU,0x2060U,
3,0x1F3FBU,0x20U,0x2060U,
3,0x1F3FBU,0x308U,0x2060U,
4,0x1F3FBU,0x308U,0x20U,0x2060U,
2,0x1F3FBU,0x200BU,
3,0x1F3FBU,0x20U,0x200BU,
3,0x1F3FBU,0x308U,0x200BU,
4,0x1F3FBU,0x308U,0x20U,0x200BU,
2,0x1F3FBU,0x8001F1E6U,
3,0x1F3FBU,0x20U,0x8001F1E6U,
3,0x1F3FBU,0x308U,0x8001F1E6U,
4,0x1F3FBU,0x308U,0x20U,0x8001F1E6U,
2,0x1F3FBU,0x8000261DU,
3,0x1F3FBU,0x20U,0x8000261DU,
3,0x1F3FBU,0x308U,0x8000261DU,
4,0x1F3FBU,0x308U,0x20U,0x8000261DU,
2,0x1F3FBU,0x8001F3FBU,
3,0x1F3FBU,0x20U,0x8001F3FBU,
3,0x1F3FBU,0x308U,0x8001F3FBU,
4,0x1F3FBU,0x308U,0x20U,0x8001F3FBU,
2,0x1F3FBU,0x29U,
3,0x1F3FBU,0x20U,0x29U,
3,0x1F3FBU,0x308U,0x29U,
4,0x1F3FBU,0x308U,0x20U,0x29U,
2,0x1F3FBU,0x80000028U,
3,0x1F3FBU,0x20U,0x80000028U,
3,0x1F3FBU,0x308U,0x80000028U,
4,0x1F3FBU,0x308U,0x20U,0x80000028U,
2,0x1F3FBU,0x1U,
3,0x1F3FBU,0x20U,0x80000001U,
3,0x1F3FBU,0x308U,0x1U,
4,0x1F3FBU,0x308U,0x20U,0x80000001U,
2,0x1F3FBU,0x200DU,
3,0x1F3FBU,0x20U,0x8000200DU,
3,0x1F3FBU,0x308U,0x200DU,
4,0x1F3FBU,0x308U,0x20U,0x8000200DU,
2,0x1F3FBU,0x800000A7U,
3,0x1F3FBU,0x20U,0x800000A7U,
3,0x1F3FBU,0x308U,0x800000A7U,
4,0x1F3FBU,0x308U,0x20U,0x800000A7U,
2,0x1F3FBU,0x80050005U,
3,0x1F3FBU,0x20U,0x80050005U,
3,0x1F3FBU,0x308U,0x80050005U,
4,0x1F3FBU,0x308U,0x20U,0x80050005U,
2,0x1F3FBU,0x80000E01U,
3,0x1F3FBU,0x20U,0x80000E01U,
3,0x1F3FBU,0x308U,0x80000E01U,
4,0x1F3FBU,0x308U,0x20U,0x80000E01U,
2,0x1F3FBU,0x3041U,
3,0x1F3FBU,0x20U,0x80003041U,
3,0x1F3FBU,0x308U,0x3041U,
4,0x1F3FBU,0x308U,0x20U,0x80003041U,
2,0x29U,0x23U,
3,0x29U,0x20U,0x80000023U,
3,0x29U,0x308U,0x23U,
4,0x29U,0x308U,0x20U,0x80000023U,
2,0x29U,0x80002014U,
3,0x29U,0x20U,0x80002014U,
3,0x29U,0x308U,0x80002014U,
4,0x29U,0x308U,0x20U,0x80002014U,
2,0x29U,0x9U,
3,0x29U,0x20U,0x80000009U,
3,0x29U,0x308U,0x9U,
4,0x29U,0x308U,0x20U,0x80000009U,
2,0x29U,0x800000B4U,
3,0x29U,0x20U,0x800000B4U,
3,0x29U,0x308U,0x800000B4U,
4,0x29U,0x308U,0x20U,0x800000B4U,
2,0x29U,0xBU,
3,0x29U,0x20U,0xBU,
3,0x29U,0x308U,0xBU,
4,0x29U,0x308U,0x20U,0xBU,
2,0x29U,0x8000FFFCU,
3,0x29U,0x20U,0x8000FFFCU,
3,0x29U,0x308U,0x8000FFFCU,
4,0x29U,0x308U,0x20U,0x8000FFFCU,
2,0x29U,0x7DU,
3,0x29U,0x20U,0x7DU,
3,0x29U,0x308U,0x7DU,
4,0x29U,0x308U,0x20U,0x7DU,
2,0x29U,0xDU,
3,0x29U,0x20U,0xDU,
3,0x29U,0x308U,0xDU,
4,0x29U,0x308U,0x20U,0xDU,
2,0x29U,0x21U,
3,0x29U,0x20U,0x21U,
3,0x29U,0x308U,0x21U,
4,0x29U,0x308U,0x20U,0x21U,
2,0x29U,0xA0U,
3,0x29U,0x20U,0x800000A0U,
3,0x29U,0x308U,0xA0U,
4,0x29U,0x308U,0x20U,0x800000A0U,
2,0x29U,0x8000AC00U,
3,0x29U,0x20U,0x8000AC00U,
3,0x29U,0x308U,0x8000AC00U,
4,0x29U,0x308U,0x20U,0x8000AC00U,
2,0x29U,0x8000AC01U,
3,0x29U,0x20U,0x8000AC01U,
3,0x29U,0x308U,0x8000AC01U,
4,0x29U,0x308U,0x20U,0x8000AC01U,
2,0x29U,0x5D0U,
3,0x29U,0x20U,0x800005D0U,
3,0x29U,0x308U,0x5D0U,
4,0x29U,0x308U,0x20U,0x800005D0U,
2,0x29U,0x2DU,
3,0x29U,0x20U,0x8000002DU,
3,0x29U,0x308U,0x2DU,
4,0x29U,0x308U,0x20U,0x8000002DU,
2,0x29U,0x8000231AU,
3,0x29U,0x20U,0x8000231AU,
3,0x29U,0x308U,0x8000231AU,
4,0x29U,0x308U,0x20U,0x8000231AU,
2,0x29U,0x2024U,
3,0x29U,0x20U,0x80002024U,
3,0x29U,0x308U,0x2024U,
4,0x29U,0x308U,0x20U,0x80002024U,
2,0x29U,0x2CU,
3,0x29U,0x20U,0x2CU,
3,0x29U,0x308U,0x2CU,
4,0x29U,0x308U,0x20U,0x2CU,
2,0x29U,0x80001100U,
3,0x29U,0x20U,0x80001100U,
3,0x29U,0x308U,0x80001100U,
4,0x29U,0x308U,0x20U,0x80001100U,
2,0x29U,0x800011A8U,
3,0x29U,0x20U,0x800011A8U,
3,0x29U,0x308U,0x800011A8U,
4,0x29U,0x308U,0x20U,0x800011A8U,
2,0x29U,0x80001160U,
3,0x29U,0x20U,0x80001160U,
3,0x29U,0x308U,0x80001160U,
4,0x29U,0x308U,0x20U,0x80001160U,
2,0x29U,0xAU,
3,0x29U,0x20U,0xAU,
3,0x29U,0x308U,0xAU,
4,0x29U,0x308U,0x20U,0xAU,
2,0x29U,0x85U,
3,0x29U,0x20U,0x85U,
3,0x29U,0x308U,0x85U,
4,0x29U,0x308U,0x20U,0x85U,
2,0x29U,0x17D6U,
3,0x29U,0x20U,0x17D6U,
3,0x29U,0x308U,0x17D6U,
4,0x29U,0x308U,0x20U,0x17D6U,
2,0x29U,0x30U,
3,0x29U,0x20U,0x80000030U,
3,0x29U,0x308U,0x30U,
4,0x29U,0x308U,0x20U,0x80000030U,
2,0x29U,0x80002329U,
3,0x29U,0x20U,0x80002329U,
3,0x29U,0x308U,0x80002329U,
4,0x29U,0x308U,0x20U,0x80002329U,
2,0x29U,0x80000025U,
3,0x29U,0x20U,0x80000025U,
3,0x29U,0x308U,0x80000025U,
4,0x29U,0x308U,0x20U,0x80000025U,
2,0x29U,0x80000024U,
3,0x29U,0x20U,0x80000024U,
3,0x29U,0x308U,0x80000024U,
4,0x29U,0x308U,0x20U,0x80000024U,
2,0x29U,0x22U,
3,0x29U,0x20U,0x80000022U,
3,0x29U,0x308U,0x22U,
4,0x29U,0x308U,0x20U,0x80000022U,
2,0x29U,0x20U,
3,0x29U,0x20U,0x20U,
3,0x29U,0x308U,0x20U,
4,0x29U,0x308U,0x20U,0x20U,
2,0x29U,0x2FU,
3,0x29U,0x20U,0x2FU,
3,0x29U,0x308U,0x2FU,
4,0x29U,0x308U,0x20U,0x2FU,
2,0x29U,0x2060U,
3,0x29U,0x20U,0x2060U,
3,0x29U,0x308U,0x2060U,
4,0x29U,0x308U,0x20U,0x2060U,
2,0x29U,0x200BU,
3,0x29U,0x20U,0x200BU,
3,0x29U,0x308U,0x200BU,
4,0x29U,0x308U,0x20U,0x200BU,
2,0x29U,0x8001F1E6U,
3,0x29U,0x20U,0x8001F1E6U,
3,0x29U,0x308U,0x8001F1E6U,
4,0x29U,0x308U,0x20U,0x8001F1E6U,
2,0x29U,0x8000261DU,
3,0x29U,0x20U,0x8000261DU,
3,0x29U,0x308U,0x8000261DU,
4,0x29U,0x308U,0x20U,0x8000261DU,
2,0x29U,0x8001F3FBU,
3,0x29U,0x20U,0x8001F3FBU,
3,0x29U,0x308U,0x8001F3FBU,
4,0x29U,0x308U,0x20U,0x8001F3FBU,
2,0x29U,0x29U,
3,0x29U,0x20U,0x29U,
3,0x29U,0x308U,0x29U,
4,0x29U,0x308U,0x20U,0x29U,
2,0x29U,0x80000028U,
3,0x29U,0x20U,0x80000028U,
3,0x29U,0x308U,0x80000028U,
4,0x29U,0x308U,0x20U,0x80000028U,
2,0x29U,0x1U,
3,0x29U,0x20U,0x80000001U,
3,0x29U,0x308U,0x1U,
4,0x29U,0x308U,0x20U,0x80000001U,
2,0x29U,0x200DU,
3,0x29U,0x20U,0x8000200DU,
3,0x29U,0x308U,0x200DU,
4,0x29U,0x308U,0x20U,0x8000200DU,
2,0x29U,0xA7U,
3,0x29U,0x20U,0x800000A7U,
3,0x29U,0x308U,0xA7U,
4,0x29U,0x308U,0x20U,0x800000A7U,
2,0x29U,0x50005U,
3,0x29U,0x20U,0x80050005U,
3,0x29U,0x308U,0x50005U,
4,0x29U,0x308U,0x20U,0x80050005U,
2,0x29U,0xE01U,
3,0x29U,0x20U,0x80000E01U,
3,0x29U,0x308U,0xE01U,
4,0x29U,0x308U,0x20U,0x80000E01U,
2,0x29U,0x3041U,
3,0x29U,0x20U,0x3041U,
3,0x29U,0x308U,0x3041U,
4,0x29U,0x308U,0x20U,0x3041U,
2,0x28U,0x23U,
3,0x28U,0x20U,0x23U,
3,0x28U,0x308U,0x23U,
4,0x28U,0x308U,0x20U,0x23U,
2,0x28U,0x2014U,
3,0x28U,0x20U,0x2014U,
3,0x28U,0x308U,0x2014U,
4,0x28U,0x308U,0x20U,0x2014U,
2,0x28U,0x9U,
3,0x28U,0x20U,0x9U,
3,0x28U,0x308U,0x9U,
4,0x28U,0x308U,0x20U,0x9U,
2,0x28U,0xB4U,
3,0x28U,0x20U,0xB4U,
3,0x28U,0x308U,0xB4U,
4,0x28U,0x308U,0x20U,0xB4U,
2,0x28U,0xBU,
3,0x28U,0x20U,0xBU,
3,0x28U,0x308U,0xBU,
4,0x28U,0x308U,0x20U,0xBU,
2,0x28U,0xFFFCU,
3,0x28U,0x20U,0xFFFCU,
3,0x28U,0x308U,0xFFFCU,
4,0x28U,0x308U,0x20U,0xFFFCU,
2,0x28U,0x7DU,
3,0x28U,0x20U,0x7DU,
3,0x28U,0x308U,0x7DU,
4,0x28U,0x308U,0x20U,0x7DU,
2,0x28U,0xDU,
3,0x28U,0x20U,0xDU,
3,0x28U,0x308U,0xDU,
4,0x28U,0x308U,0x20U,0xDU,
2,0x28U,0x21U,
3,0x28U,0x20U,0x21U,
3,0x28U,0x308U,0x21U,
4,0x28U,0x308U,0x20U,0x21U,
2,0x28U,0xA0U,
3,0x28U,0x20U,0xA0U,
3,0x28U,0x308U,0xA0U,
4,0x28U,0x308U,0x20U,0xA0U,
2,0x28U,0xAC00U,
3,0x28U,0x20U,0xAC00U,
3,0x28U,0x308U,0xAC00U,
4,0x28U,0x308U,0x20U,0xAC00U,
2,0x28U,0xAC01U,
3,0x28U,0x20U,0xAC01U,
3,0x28U,0x308U,0xAC01U,
4,0x28U,0x308U,0x20U,0xAC01U,
2,0x28U,0x5D0U,
3,0x28U,0x20U,0x5D0U,
3,0x28U,0x308U,0x5D0U,
4,0x28U,0x308U,0x20U,0x5D0U,
2,0x28U,0x2DU,
3,0x28U,0x20U,0x2DU,
3,0x28U,0x308U,0x2DU,
4,0x28U,0x308U,0x20U,0x2DU,
2,0x28U,0x231AU,
3,0x28U,0x20U,0x231AU,
3,0x28U,0x308U,0x231AU,
4,0x28U,0x308U,0x20U,0x231AU,
2,0x28U,0x2024U,
3,0x28U,0x20U,0x2024U,
3,0x28U,0x308U,0x2024U,
4,0x28U,0x308U,0x20U,0x2024U,
2,0x28U,0x2CU,
3,0x28U,0x20U,0x2CU,
3,0x28U,0x308U,0x2CU,
4,0x28U,0x308U,0x20U,0x2CU,
2,0x28U,0x1100U,
3,0x28U,0x20U,0x1100U,
3,0x28U,0x308U,0x1100U,
4,0x28U,0x308U,0x20U,0x1100U,
2,0x28U,0x11A8U,
3,0x28U,0x20U,0x11A8U,
3,0x28U,0x308U,0x11A8U,
4,0x28U,0x308U,0x20U,0x11A8U,
2,0x28U,0x1160U,
3,0x28U,0x20U,0x1160U,
3,0x28U,0x308U,0x1160U,
4,0x28U,0x308U,0x20U,0x1160U,
2,0x28U,0xAU,
3,0x28U,0x20U,0xAU,
3,0x28U,0x308U,0xAU,
4,0x28U,0x308U,0x20U,0xAU,
2,0x28U,0x85U,
3,0x28U,0x20U,0x85U,
3,0x28U,0x308U,0x85U,
4,0x28U,0x308U,0x20U,0x85U,
2,0x28U,0x17D6U,
3,0x28U,0x20U,0x17D6U,
3,0x28U,0x308U,0x17D6U,
4,0x28U,0x308U,0x20U,0x17D6U,
2,0x28U,0x30U,
3,0x28U,0x20U,0x30U,
3,0x28U,0x308U,0x30U,
4,0x28U,0x308U,0x20U,0x30U,
2,0x28U,0x2329U,
3,0x28U,0x20U,0x2329U,
3,0x28U,0x308U,0x2329U,
4,0x28U,0x308U,0x20U,0x2329U,
2,0x28U,0x25U,
3,0x28U,0x20U,0x25U,
3,0x28U,0x308U,0x25U,
4,0x28U,0x308U,0x20U,0x25U,
2,0x28U,0x24U,
3,0x28U,0x20U,0x24U,
3,0x28U,0x308U,0x24U,
4,0x28U,0x308U,0x20U,0x24U,
2,0x28U,0x22U,
3,0x28U,0x20U,0x22U,
3,0x28U,0x308U,0x22U,
4,0x28U,0x308U,0x20U,0x22U,
2,0x28U,0x20U,
3,0x28U,0x20U,0x20U,
3,0x28U,0x308U,0x20U,
4,0x28U,0x308U,0x20U,0x20U,
2,0x28U,0x2FU,
3,0x28U,0x20U,0x2FU,
3,0x28U,0x308U,0x2FU,
4,0x28U,0x308U,0x20U,0x2FU,
2,0x28U,0x2060U,
3,0x28U,0x20U,0x2060U,
3,0x28U,0x308U,0x2060U,
4,0x28U,0x308U,0x20U,0x2060U,
2,0x28U,0x200BU,
3,0x28U,0x20U,0x200BU,
3,0x28U,0x308U,0x200BU,
4,0x28U,0x308U,0x20U,0x200BU,
2,0x28U,0x1F1E6U,
3,0x28U,0x20U,0x1F1E6U,
3,0x28U,0x308U,0x1F1E6U,
4,0x28U,0x308U,0x20U,0x1F1E6U,
2,0x28U,0x261DU,
3,0x28U,0x20U,0x261DU,
3,0x28U,0x308U,0x261DU,
4,0x28U,0x308U,0x20U,0x261DU,
2,0x28U,0x1F3FBU,
3,0x28U,0x20U,0x1F3FBU,
3,0x28U,0x308U,0x1F3FBU,
4,0x28U,0x308U,0x20U,0x1F3FBU,
2,0x28U,0x29U,
3,0x28U,0x20U,0x29U,
3,0x28U,0x308U,0x29U,
4,0x28U,0x308U,0x20U,0x29U,
2,0x28U,0x28U,
3,0x28U,0x20U,0x28U,
3,0x28U,0x308U,0x28U,
4,0x28U,0x308U,0x20U,0x28U,
2,0x28U,0x1U,
3,0x28U,0x20U,0x1U,
3,0x28U,0x308U,0x1U,
4,0x28U,0x308U,0x20U,0x1U,
2,0x28U,0x200DU,
3,0x28U,0x20U,0x200DU,
3,0x28U,0x308U,0x200DU,
4,0x28U,0x308U,0x20U,0x200DU,
2,0x28U,0xA7U,
3,0x28U,0x20U,0xA7U,
3,0x28U,0x308U,0xA7U,
4,0x28U,0x308U,0x20U,0xA7U,
2,0x28U,0x50005U,
3,0x28U,0x20U,0x50005U,
3,0x28U,0x308U,0x50005U,
4,0x28U,0x308U,0x20U,0x50005U,
2,0x28U,0xE01U,
3,0x28U,0x20U,0xE01U,
3,0x28U,0x308U,0xE01U,
4,0x28U,0x308U,0x20U,0xE01U,
2,0x28U,0x3041U,
3,0x28U,0x20U,0x3041U,
3,0x28U,0x308U,0x3041U,
4,0x28U,0x308U,0x20U,0x3041U,
2,0x1U,0x23U,
3,0x1U,0x20U,0x80000023U,
3,0x1U,0x308U,0x23U,
4,0x1U,0x308U,0x20U,0x80000023U,
2,0x1U,0x80002014U,
3,0x1U,0x20U,0x80002014U,
3,0x1U,0x308U,0x80002014U,
4,0x1U,0x308U,0x20U,0x80002014U,
2,0x1U,0x9U,
3,0x1U,0x20U,0x80000009U,
3,0x1U,0x308U,0x9U,
4,0x1U,0x308U,0x20U,0x80000009U,
2,0x1U,0x800000B4U,
3,0x1U,0x20U,0x800000B4U,
3,0x1U,0x308U,0x800000B4U,
4,0x1U,0x308U,0x20U,0x800000B4U,
2,0x1U,0xBU,
3,0x1U,0x20U,0xBU,
3,0x1U,0x308U,0xBU,
4,0x1U,0x308U,0x20U,0xBU,
2,0x1U,0x8000FFFCU,
3,0x1U,0x20U,0x8000FFFCU,
3,0x1U,0x308U,0x8000FFFCU,
4,0x1U,0x308U,0x20U,0x8000FFFCU,
2,0x1U,0x7DU,
3,0x1U,0x20U,0x7DU,
3,0x1U,0x308U,0x7DU,
4,0x1U,0x308U,0x20U,0x7DU,
2,0x1U,0xDU,
3,0x1U,0x20U,0xDU,
3,0x1U,0x308U,0xDU,
4,0x1U,0x308U,0x20U,0xDU,
2,0x1U,0x21U,
3,0x1U,0x20U,0x21U,
3,0x1U,0x308U,0x21U,
4,0x1U,0x308U,0x20U,0x21U,
2,0x1U,0xA0U,
3,0x1U,0x20U,0x800000A0U,
3,0x1U,0x308U,0xA0U,
4,0x1U,0x308U,0x20U,0x800000A0U,
2,0x1U,0x8000AC00U,
3,0x1U,0x20U,0x8000AC00U,
3,0x1U,0x308U,0x8000AC00U,
4,0x1U,0x308U,0x20U,0x8000AC00U,
2,0x1U,0x8000AC01U,
3,0x1U,0x20U,0x8000AC01U,
3,0x1U,0x308U,0x8000AC01U,
4,0x1U,0x308U,0x20U,0x8000AC01U,
2,0x1U,0x5D0U,
3,0x1U,0x20U,0x800005D0U,
3,0x1U,0x308U,0x5D0U,
4,0x1U,0x308U,0x20U,0x800005D0U,
2,0x1U,0x2DU,
3,0x1U,0x20U,0x8000002DU,
3,0x1U,0x308U,0x2DU,
4,0x1U,0x308U,0x20U,0x8000002DU,
2,0x1U,0x8000231AU,
3,0x1U,0x20U,0x8000231AU,
3,0x1U,0x308U,0x8000231AU,
4,0x1U,0x308U,0x20U,0x8000231AU,
2,0x1U,0x2024U,
3,0x1U,0x20U,0x80002024U,
3,0x1U,0x308U,0x2024U,
4,0x1U,0x308U,0x20U,0x80002024U,
2,0x1U,0x2CU,
3,0x1U,0x20U,0x2CU,
3,0x1U,0x308U,0x2CU,
4,0x1U,0x308U,0x20U,0x2CU,
2,0x1U,0x80001100U,
3,0x1U,0x20U,0x80001100U,
3,0x1U,0x308U,0x80001100U,
4,0x1U,0x308U,0x20U,0x80001100U,
2,0x1U,0x800011A8U,
3,0x1U,0x20U,0x800011A8U,
3,0x1U,0x308U,0x800011A8U,
4,0x1U,0x308U,0x20U,0x800011A8U,
2,0x1U,0x80001160U,
3,0x1U,0x20U,0x80001160U,
3,0x1U,0x308U,0x80001160U,
4,0x1U,0x308U,0x20U,0x80001160U,
2,0x1U,0xAU,
3,0x1U,0x20U,0xAU,
3,0x1U,0x308U,0xAU,
4,0x1U,0x308U,0x20U,0xAU,
2,0x1U,0x85U,
3,0x1U,0x20U,0x85U,
3,0x1U,0x308U,0x85U,
4,0x1U,0x308U,0x20U,0x85U,
2,0x1U,0x17D6U,
3,0x1U,0x20U,0x800017D6U,
3,0x1U,0x308U,0x17D6U,
4,0x1U,0x308U,0x20U,0x800017D6U,
2,0x1U,0x30U,
3,0x1U,0x20U,0x80000030U,
3,0x1U,0x308U,0x30U,
4,0x1U,0x308U,0x20U,0x80000030U,
2,0x1U,0x80002329U,
3,0x1U,0x20U,0x80002329U,
3,0x1U,0x308U,0x80002329U,
4,0x1U,0x308U,0x20U,0x80002329U,
2,0x1U,0x25U,
3,0x1U,0x20U,0x80000025U,
3,0x1U,0x308U,0x25U,
4,0x1U,0x308U,0x20U,0x80000025U,
2,0x1U,0x24U,
3,0x1U,0x20U,0x80000024U,
3,0x1U,0x308U,0x24U,
4,0x1U,0x308U,0x20U,0x80000024U,
2,0x1U,0x22U,
3,0x1U,0x20U,0x80000022U,
3,0x1U,0x308U,0x22U,
4,0x1U,0x308U,0x20U,0x80000022U,
2,0x1U,0x20U,
3,0x1U,0x20U,0x20U,
3,0x1U,0x308U,0x20U,
4,0x1U,0x308U,0x20U,0x20U,
2,0x1U,0x2FU,
3,0x1U,0x20U,0x2FU,
3,0x1U,0x308U,0x2FU,
4,0x1U,0x308U,0x20U,0x2FU,
2,0x1U,0x2060U,
3,0x1U,0x20U,0x2060U,
3,0x1U,0x308U,0x2060U,
4,0x1U,0x308U,0x20U,0x2060U,
2,0x1U,0x200BU,
3,0x1U,0x20U,0x200BU,
3,0x1U,0x308U,0x200BU,
4,0x1U,0x308U,0x20U,0x200BU,
2,0x1U,0x8001F1E6U,
3,0x1U,0x20U,0x8001F1E6U,
3,0x1U,0x308U,0x8001F1E6U,
4,0x1U,0x308U,0x20U,0x8001F1E6U,
2,0x1U,0x8000261DU,
3,0x1U,0x20U,0x8000261DU,
3,0x1U,0x308U,0x8000261DU,
4,0x1U,0x308U,0x20U,0x8000261DU,
2,0x1U,0x8001F3FBU,
3,0x1U,0x20U,0x8001F3FBU,
3,0x1U,0x308U,0x8001F3FBU,
4,0x1U,0x308U,0x20U,0x8001F3FBU,
2,0x1U,0x29U,
3,0x1U,0x20U,0x29U,
3,0x1U,0x308U,0x29U,
4,0x1U,0x308U,0x20U,0x29U,
2,0x1U,0x28U,
3,0x1U,0x20U,0x80000028U,
3,0x1U,0x308U,0x28U,
4,0x1U,0x308U,0x20U,0x80000028U,
2,0x1U,0x1U,
3,0x1U,0x20U,0x80000001U,
3,0x1U,0x308U,0x1U,
4,0x1U,0x308U,0x20U,0x80000001U,
2,0x1U,0x200DU,
3,0x1U,0x20U,0x8000200DU,
3,0x1U,0x308U,0x200DU,
4,0x1U,0x308U,0x20U,0x8000200DU,
2,0x1U,0xA7U,
3,0x1U,0x20U,0x800000A7U,
3,0x1U,0x308U,0xA7U,
4,0x1U,0x308U,0x20U,0x800000A7U,
2,0x1U,0x50005U,
3,0x1U,0x20U,0x80050005U,
3,0x1U,0x308U,0x50005U,
4,0x1U,0x308U,0x20U,0x80050005U,
2,0x1U,0xE01U,
3,0x1U,0x20U,0x80000E01U,
3,0x1U,0x308U,0xE01U,
4,0x1U,0x308U,0x20U,0x80000E01U,
2,0x1U,0x3041U,
3,0x1U,0x20U,0x80003041U,
3,0x1U,0x308U,0x3041U,
4,0x1U,0x308U,0x20U,0x80003041U,
2,0x200DU,0x23U,
3,0x200DU,0x20U,0x80000023U,
3,0x200DU,0x308U,0x23U,
4,0x200DU,0x308U,0x20U,0x80000023U,
2,0x200DU,0x2014U,
3,0x200DU,0x20U,0x80002014U,
3,0x200DU,0x308U,0x80002014U,
4,0x200DU,0x308U,0x20U,0x80002014U,
2,0x200DU,0x9U,
3,0x200DU,0x20U,0x80000009U,
3,0x200DU,0x308U,0x9U,
4,0x200DU,0x308U,0x20U,0x80000009U,
2,0x200DU,0xB4U,
3,0x200DU,0x20U,0x800000B4U,
3,0x200DU,0x308U,0x800000B4U,
4,0x200DU,0x308U,0x20U,0x800000B4U,
2,0x200DU,0xBU,
3,0x200DU,0x20U,0xBU,
3,0x200DU,0x308U,0xBU,
4,0x200DU,0x308U,0x20U,0xBU,
2,0x200DU,0xFFFCU,
3,0x200DU,0x20U,0x8000FFFCU,
3,0x200DU,0x308U,0x8000FFFCU,
4,0x200DU,0x308U,0x20U,0x8000FFFCU,
2,0x200DU,0x7DU,
3,0x200DU,0x20U,0x7DU,
3,0x200DU,0x308U,0x7DU,
4,0x200DU,0x308U,0x20U,0x7DU,
2,0x200DU,0xDU,
3,0x200DU,0x20U,0xDU,
3,0x200DU,0x308U,0xDU,
4,0x200DU,0x308U,0x20U,0xDU,
2,0x200DU,0x21U,
3,0x200DU,0x20U,0x21U,
3,0x200DU,0x308U,0x21U,
4,0x200DU,0x308U,0x20U,0x21U,
2,0x200DU,0xA0U,
3,0x200DU,0x20U,0x800000A0U,
3,0x200DU,0x308U,0xA0U,
4,0x200DU,0x308U,0x20U,0x800000A0U,
2,0x200DU,0xAC00U,
3,0x200DU,0x20U,0x8000AC00U,
3,0x200DU,0x308U,0x8000AC00U,
4,0x200DU,0x308U,0x20U,0x8000AC00U,
2,0x200DU,0xAC01U,
3,0x200DU,0x20U,0x8000AC01U,
3,0x200DU,0x308U,0x8000AC01U,
4,0x200DU,0x308U,0x20U,0x8000AC01U,
2,0x200DU,0x5D0U,
3,0x200DU,0x20U,0x800005D0U,
3,0x200DU,0x308U,0x5D0U,
4,0x200DU,0x308U,0x20U,0x800005D0U,
2,0x200DU,0x2DU,
3,0x200DU,0x20U,0x8000002DU,
3,0x200DU,0x308U,0x2DU,
4,0x200DU,0x308U,0x20U,0x8000002DU,
2,0x200DU,0x231AU,
3,0x200DU,0x20U,0x8000231AU,
3,0x200DU,0x308U,0x8000231AU,
4,0x200DU,0x308U,0x20U,0x8000231AU,
2,0x200DU,0x2024U,
3,0x200DU,0x20U,0x80002024U,
3,0x200DU,0x308U,0x2024U,
4,0x200DU,0x308U,0x20U,0x80002024U,
2,0x200DU,0x2CU,
3,0x200DU,0x20U,0x2CU,
3,0x200DU,0x308U,0x2CU,
4,0x200DU,0x308U,0x20U,0x2CU,
2,0x200DU,0x1100U,
3,0x200DU,0x20U,0x80001100U,
3,0x200DU,0x308U,0x80001100U,
4,0x200DU,0x308U,0x20U,0x80001100U,
2,0x200DU,0x11A8U,
3,0x200DU,0x20U,0x800011A8U,
3,0x200DU,0x308U,0x800011A8U,
4,0x200DU,0x308U,0x20U,0x800011A8U,
2,0x200DU,0x1160U,
3,0x200DU,0x20U,0x80001160U,
3,0x200DU,0x308U,0x80001160U,
4,0x200DU,0x308U,0x20U,0x80001160U,
2,0x200DU,0xAU,
3,0x200DU,0x20U,0xAU,
3,0x200DU,0x308U,0xAU,
4,0x200DU,0x308U,0x20U,0xAU,
2,0x200DU,0x85U,
3,0x200DU,0x20U,0x85U,
3,0x200DU,0x308U,0x85U,
4,0x200DU,0x308U,0x20U,0x85U,
2,0x200DU,0x17D6U,
3,0x200DU,0x20U,0x800017D6U,
3,0x200DU,0x308U,0x17D6U,
4,0x200DU,0x308U,0x20U,0x800017D6U,
2,0x200DU,0x30U,
3,0x200DU,0x20U,0x80000030U,
3,0x200DU,0x308U,0x30U,
4,0x200DU,0x308U,0x20U,0x80000030U,
2,0x200DU,0x2329U,
3,0x200DU,0x20U,0x80002329U,
3,0x200DU,0x308U,0x80002329U,
4,0x200DU,0x308U,0x20U,0x80002329U,
2,0x200DU,0x25U,
3,0x200DU,0x20U,0x80000025U,
3,0x200DU,0x308U,0x25U,
4,0x200DU,0x308U,0x20U,0x80000025U,
2,0x200DU,0x24U,
3,0x200DU,0x20U,0x80000024U,
3,0x200DU,0x308U,0x24U,
4,0x200DU,0x308U,0x20U,0x80000024U,
2,0x200DU,0x22U,
3,0x200DU,0x20U,0x80000022U,
3,0x200DU,0x308U,0x22U,
4,0x200DU,0x308U,0x20U,0x80000022U,
2,0x200DU,0x20U,
3,0x200DU,0x20U,0x20U,
3,0x200DU,0x308U,0x20U,
4,0x200DU,0x308U,0x20U,0x20U,
2,0x200DU,0x2FU,
3,0x200DU,0x20U,0x2FU,
3,0x200DU,0x308U,0x2FU,
4,0x200DU,0x308U,0x20U,0x2FU,
2,0x200DU,0x2060U,
3,0x200DU,0x20U,0x2060U,
3,0x200DU,0x308U,0x2060U,
4,0x200DU,0x308U,0x20U,0x2060U,
2,0x200DU,0x200BU,
3,0x200DU,0x20U,0x200BU,
3,0x200DU,0x308U,0x200BU,
4,0x200DU,0x308U,0x20U,0x200BU,
2,0x200DU,0x1F1E6U,
3,0x200DU,0x20U,0x8001F1E6U,
3,0x200DU,0x308U,0x8001F1E6U,
4,0x200DU,0x308U,0x20U,0x8001F1E6U,
2,0x200DU,0x261DU,
3,0x200DU,0x20U,0x8000261DU,
3,0x200DU,0x308U,0x8000261DU,
4,0x200DU,0x308U,0x20U,0x8000261DU,
2,0x200DU,0x1F3FBU,
3,0x200DU,0x20U,0x8001F3FBU,
3,0x200DU,0x308U,0x8001F3FBU,
4,0x200DU,0x308U,0x20U,0x8001F3FBU,
2,0x200DU,0x29U,
3,0x200DU,0x20U,0x29U,
3,0x200DU,0x308U,0x29U,
4,0x200DU,0x308U,0x20U,0x29U,
2,0x200DU,0x28U,
3,0x200DU,0x20U,0x80000028U,
3,0x200DU,0x308U,0x28U,
4,0x200DU,0x308U,0x20U,0x80000028U,
2,0x200DU,0x1U,
3,0x200DU,0x20U,0x80000001U,
3,0x200DU,0x308U,0x1U,
4,0x200DU,0x308U,0x20U,0x80000001U,
2,0x200DU,0x200DU,
3,0x200DU,0x20U,0x8000200DU,
3,0x200DU,0x308U,0x200DU,
4,0x200DU,0x308U,0x20U,0x8000200DU,
2,0x200DU,0xA7U,
3,0x200DU,0x20U,0x800000A7U,
3,0x200DU,0x308U,0xA7U,
4,0x200DU,0x308U,0x20U,0x800000A7U,
2,0x200DU,0x50005U,
3,0x200DU,0x20U,0x80050005U,
3,0x200DU,0x308U,0x50005U,
4,0x200DU,0x308U,0x20U,0x80050005U,
2,0x200DU,0xE01U,
3,0x200DU,0x20U,0x80000E01U,
3,0x200DU,0x308U,0xE01U,
4,0x200DU,0x308U,0x20U,0x80000E01U,
2,0x200DU,0x3041U,
3,0x200DU,0x20U,0x80003041U,
3,0x200DU,0x308U,0x3041U,
4,0x200DU,0x308U,0x20U,0x80003041U,
2,0xA7U,0x23U,
3,0xA7U,0x20U,0x80000023U,
3,0xA7U,0x308U,0x23U,
4,0xA7U,0x308U,0x20U,0x80000023U,
2,0xA7U,0x80002014U,
3,0xA7U,0x20U,0x80002014U,
3,0xA7U,0x308U,0x80002014U,
4,0xA7U,0x308U,0x20U,0x80002014U,
2,0xA7U,0x9U,
3,0xA7U,0x20U,0x80000009U,
3,0xA7U,0x308U,0x9U,
4,0xA7U,0x308U,0x20U,0x80000009U,
2,0xA7U,0x800000B4U,
3,0xA7U,0x20U,0x800000B4U,
3,0xA7U,0x308U,0x800000B4U,
4,0xA7U,0x308U,0x20U,0x800000B4U,
2,0xA7U,0xBU,
3,0xA7U,0x20U,0xBU,
3,0xA7U,0x308U,0xBU,
4,0xA7U,0x308U,0x20U,0xBU,
2,0xA7U,0x8000FFFCU,
3,0xA7U,0x20U,0x8000FFFCU,
3,0xA7U,0x308U,0x8000FFFCU,
4,0xA7U,0x308U,0x20U,0x8000FFFCU,
2,0xA7U,0x7DU,
3,0xA7U,0x20U,0x7DU,
3,0xA7U,0x308U,0x7DU,
4,0xA7U,0x308U,0x20U,0x7DU,
2,0xA7U,0xDU,
3,0xA7U,0x20U,0xDU,
3,0xA7U,0x308U,0xDU,
4,0xA7U,0x308U,0x20U,0xDU,
2,0xA7U,0x21U,
3,0xA7U,0x20U,0x21U,
3,0xA7U,0x308U,0x21U,
4,0xA7U,0x308U,0x20U,0x21U,
2,0xA7U,0xA0U,
3,0xA7U,0x20U,0x800000A0U,
3,0xA7U,0x308U,0xA0U,
4,0xA7U,0x308U,0x20U,0x800000A0U,
2,0xA7U,0x8000AC00U,
3,0xA7U,0x20U,0x8000AC00U,
3,0xA7U,0x308U,0x8000AC00U,
4,0xA7U,0x308U,0x20U,0x8000AC00U,
2,0xA7U,0x8000AC01U,
3,0xA7U,0x20U,0x8000AC01U,
3,0xA7U,0x308U,0x8000AC01U,
4,0xA7U,0x308U,0x20U,0x8000AC01U,
2,0xA7U,0x5D0U,
3,0xA7U,0x20U,0x800005D0U,
3,0xA7U,0x308U,0x5D0U,
4,0xA7U,0x308U,0x20U,0x800005D0U,
2,0xA7U,0x2DU,
3,0xA7U,0x20U,0x8000002DU,
3,0xA7U,0x308U,0x2DU,
4,0xA7U,0x308U,0x20U,0x8000002DU,
2,0xA7U,0x8000231AU,
3,0xA7U,0x20U,0x8000231AU,
3,0xA7U,0x308U,0x8000231AU,
4,0xA7U,0x308U,0x20U,0x8000231AU,
2,0xA7U,0x2024U,
3,0xA7U,0x20U,0x80002024U,
3,0xA7U,0x308U,0x2024U,
4,0xA7U,0x308U,0x20U,0x80002024U,
2,0xA7U,0x2CU,
3,0xA7U,0x20U,0x2CU,
3,0xA7U,0x308U,0x2CU,
4,0xA7U,0x308U,0x20U,0x2CU,
2,0xA7U,0x80001100U,
3,0xA7U,0x20U,0x80001100U,
3,0xA7U,0x308U,0x80001100U,
4,0xA7U,0x308U,0x20U,0x80001100U,
2,0xA7U,0x800011A8U,
3,0xA7U,0x20U,0x800011A8U,
3,0xA7U,0x308U,0x800011A8U,
4,0xA7U,0x308U,0x20U,0x800011A8U,
2,0xA7U,0x80001160U,
3,0xA7U,0x20U,0x80001160U,
3,0xA7U,0x308U,0x80001160U,
4,0xA7U,0x308U,0x20U,0x80001160U,
2,0xA7U,0xAU,
3,0xA7U,0x20U,0xAU,
3,0xA7U,0x308U,0xAU,
4,0xA7U,0x308U,0x20U,0xAU,
2,0xA7U,0x85U,
3,0xA7U,0x20U,0x85U,
3,0xA7U,0x308U,0x85U,
4,0xA7U,0x308U,0x20U,0x85U,
2,0xA7U,0x17D6U,
3,0xA7U,0x20U,0x800017D6U,
3,0xA7U,0x308U,0x17D6U,
4,0xA7U,0x308U,0x20U,0x800017D6U,
2,0xA7U,0x30U,
3,0xA7U,0x20U,0x80000030U,
3,0xA7U,0x308U,0x30U,
4,0xA7U,0x308U,0x20U,0x80000030U,
2,0xA7U,0x80002329U,
3,0xA7U,0x20U,0x80002329U,
3,0xA7U,0x308U,0x80002329U,
4,0xA7U,0x308U,0x20U,0x80002329U,
2,0xA7U,0x25U,
3,0xA7U,0x20U,0x80000025U,
3,0xA7U,0x308U,0x25U,
4,0xA7U,0x308U,0x20U,0x80000025U,
2,0xA7U,0x24U,
3,0xA7U,0x20U,0x80000024U,
3,0xA7U,0x308U,0x24U,
4,0xA7U,0x308U,0x20U,0x80000024U,
2,0xA7U,0x22U,
3,0xA7U,0x20U,0x80000022U,
3,0xA7U,0x308U,0x22U,
4,0xA7U,0x308U,0x20U,0x80000022U,
2,0xA7U,0x20U,
3,0xA7U,0x20U,0x20U,
3,0xA7U,0x308U,0x20U,
4,0xA7U,0x308U,0x20U,0x20U,
2,0xA7U,0x2FU,
3,0xA7U,0x20U,0x2FU,
3,0xA7U,0x308U,0x2FU,
4,0xA7U,0x308U,0x20U,0x2FU,
2,0xA7U,0x2060U,
3,0xA7U,0x20U,0x2060U,
3,0xA7U,0x308U,0x2060U,
4,0xA7U,0x308U,0x20U,0x2060U,
2,0xA7U,0x200BU,
3,0xA7U,0x20U,0x200BU,
3,0xA7U,0x308U,0x200BU,
4,0xA7U,0x308U,0x20U,0x200BU,
2,0xA7U,0x8001F1E6U,
3,0xA7U,0x20U,0x8001F1E6U,
3,0xA7U,0x308U,0x8001F1E6U,
4,0xA7U,0x308U,0x20U,0x8001F1E6U,
2,0xA7U,0x8000261DU,
3,0xA7U,0x20U,0x8000261DU,
3,0xA7U,0x308U,0x8000261DU,
4,0xA7U,0x308U,0x20U,0x8000261DU,
2,0xA7U,0x8001F3FBU,
3,0xA7U,0x20U,0x8001F3FBU,
3,0xA7U,0x308U,0x8001F3FBU,
4,0xA7U,0x308U,0x20U,0x8001F3FBU,
2,0xA7U,0x29U,
3,0xA7U,0x20U,0x29U,
3,0xA7U,0x308U,0x29U,
4,0xA7U,0x308U,0x20U,0x29U,
2,0xA7U,0x28U,
3,0xA7U,0x20U,0x80000028U,
3,0xA7U,0x308U,0x28U,
4,0xA7U,0x308U,0x20U,0x80000028U,
2,0xA7U,0x1U,
3,0xA7U,0x20U,0x80000001U,
3,0xA7U,0x308U,0x1U,
4,0xA7U,0x308U,0x20U,0x80000001U,
2,0xA7U,0x200DU,
3,0xA7U,0x20U,0x8000200DU,
3,0xA7U,0x308U,0x200DU,
4,0xA7U,0x308U,0x20U,0x8000200DU,
2,0xA7U,0xA7U,
3,0xA7U,0x20U,0x800000A7U,
3,0xA7U,0x308U,0xA7U,
4,0xA7U,0x308U,0x20U,0x800000A7U,
2,0xA7U,0x50005U,
3,0xA7U,0x20U,0x80050005U,
3,0xA7U,0x308U,0x50005U,
4,0xA7U,0x308U,0x20U,0x80050005U,
2,0xA7U,0xE01U,
3,0xA7U,0x20U,0x80000E01U,
3,0xA7U,0x308U,0xE01U,
4,0xA7U,0x308U,0x20U,0x80000E01U,
2,0xA7U,0x3041U,
3,0xA7U,0x20U,0x80003041U,
3,0xA7U,0x308U,0x3041U,
4,0xA7U,0x308U,0x20U,0x80003041U,
2,0x50005U,0x23U,
3,0x50005U,0x20U,0x80000023U,
3,0x50005U,0x308U,0x23U,
4,0x50005U,0x308U,0x20U,0x80000023U,
2,0x50005U,0x80002014U,
3,0x50005U,0x20U,0x80002014U,
3,0x50005U,0x308U,0x80002014U,
4,0x50005U,0x308U,0x20U,0x80002014U,
2,0x50005U,0x9U,
3,0x50005U,0x20U,0x80000009U,
3,0x50005U,0x308U,0x9U,
4,0x50005U,0x308U,0x20U,0x80000009U,
2,0x50005U,0x800000B4U,
3,0x50005U,0x20U,0x800000B4U,
3,0x50005U,0x308U,0x800000B4U,
4,0x50005U,0x308U,0x20U,0x800000B4U,
2,0x50005U,0xBU,
3,0x50005U,0x20U,0xBU,
3,0x50005U,0x308U,0xBU,
4,0x50005U,0x308U,0x20U,0xBU,
2,0x50005U,0x8000FFFCU,
3,0x50005U,0x20U,0x8000FFFCU,
3,0x50005U,0x308U,0x8000FFFCU,
4,0x50005U,0x308U,0x20U,0x8000FFFCU,
2,0x50005U,0x7DU,
3,0x50005U,0x20U,0x7DU,
3,0x50005U,0x308U,0x7DU,
4,0x50005U,0x308U,0x20U,0x7DU,
2,0x50005U,0xDU,
3,0x50005U,0x20U,0xDU,
3,0x50005U,0x308U,0xDU,
4,0x50005U,0x308U,0x20U,0xDU,
2,0x50005U,0x21U,
3,0x50005U,0x20U,0x21U,
3,0x50005U,0x308U,0x21U,
4,0x50005U,0x308U,0x20U,0x21U,
2,0x50005U,0xA0U,
3,0x50005U,0x20U,0x800000A0U,
3,0x50005U,0x308U,0xA0U,
4,0x50005U,0x308U,0x20U,0x800000A0U,
2,0x50005U,0x8000AC00U,
3,0x50005U,0x20U,0x8000AC00U,
3,0x50005U,0x308U,0x8000AC00U,
4,0x50005U,0x308U,0x20U,0x8000AC00U,
2,0x50005U,0x8000AC01U,
3,0x50005U,0x20U,0x8000AC01U,
3,0x50005U,0x308U,0x8000AC01U,
4,0x50005U,0x308U,0x20U,0x8000AC01U,
2,0x50005U,0x5D0U,
3,0x50005U,0x20U,0x800005D0U,
3,0x50005U,0x308U,0x5D0U,
4,0x50005U,0x308U,0x20U,0x800005D0U,
2,0x50005U,0x2DU,
3,0x50005U,0x20U,0x8000002DU,
3,0x50005U,0x308U,0x2DU,
4,0x50005U,0x308U,0x20U,0x8000002DU,
2,0x50005U,0x8000231AU,
3,0x50005U,0x20U,0x8000231AU,
3,0x50005U,0x308U,0x8000231AU,
4,0x50005U,0x308U,0x20U,0x8000231AU,
2,0x50005U,0x2024U,
3,0x50005U,0x20U,0x80002024U,
3,0x50005U,0x308U,0x2024U,
4,0x50005U,0x308U,0x20U,0x80002024U,
2,0x50005U,0x2CU,
3,0x50005U,0x20U,0x2CU,
3,0x50005U,0x308U,0x2CU,
4,0x50005U,0x308U,0x20U,0x2CU,
2,0x50005U,0x80001100U,
3,0x50005U,0x20U,0x80001100U,
3,0x50005U,0x308U,0x80001100U,
4,0x50005U,0x308U,0x20U,0x80001100U,
2,0x50005U,0x800011A8U,
3,0x50005U,0x20U,0x800011A8U,
3,0x50005U,0x308U,0x800011A8U,
4,0x50005U,0x308U,0x20U,0x800011A8U,
2,0x50005U,0x80001160U,
3,0x50005U,0x20U,0x80001160U,
3,0x50005U,0x308U,0x80001160U,
4,0x50005U,0x308U,0x20U,0x80001160U,
2,0x50005U,0xAU,
3,0x50005U,0x20U,0xAU,
3,0x50005U,0x308U,0xAU,
4,0x50005U,0x308U,0x20U,0xAU,
2,0x50005U,0x85U,
3,0x50005U,0x20U,0x85U,
3,0x50005U,0x308U,0x85U,
4,0x50005U,0x308U,0x20U,0x85U,
2,0x50005U,0x17D6U,
3,0x50005U,0x20U,0x800017D6U,
3,0x50005U,0x308U,0x17D6U,
4,0x50005U,0x308U,0x20U,0x800017D6U,
2,0x50005U,0x30U,
3,0x50005U,0x20U,0x80000030U,
3,0x50005U,0x308U,0x30U,
4,0x50005U,0x308U,0x20U,0x80000030U,
2,0x50005U,0x80002329U,
3,0x50005U,0x20U,0x80002329U,
3,0x50005U,0x308U,0x80002329U,
4,0x50005U,0x308U,0x20U,0x80002329U,
2,0x50005U,0x25U,
3,0x50005U,0x20U,0x80000025U,
3,0x50005U,0x308U,0x25U,
4,0x50005U,0x308U,0x20U,0x80000025U,
2,0x50005U,0x24U,
3,0x50005U,0x20U,0x80000024U,
3,0x50005U,0x308U,0x24U,
4,0x50005U,0x308U,0x20U,0x80000024U,
2,0x50005U,0x22U,
3,0x50005U,0x20U,0x80000022U,
3,0x50005U,0x308U,0x22U,
4,0x50005U,0x308U,0x20U,0x80000022U,
2,0x50005U,0x20U,
3,0x50005U,0x20U,0x20U,
3,0x50005U,0x308U,0x20U,
4,0x50005U,0x308U,0x20U,0x20U,
2,0x50005U,0x2FU,
3,0x50005U,0x20U,0x2FU,
3,0x50005U,0x308U,0x2FU,
4,0x50005U,0x308U,0x20U,0x2FU,
2,0x50005U,0x2060U,
3,0x50005U,0x20U,0x2060U,
3,0x50005U,0x308U,0x2060U,
4,0x50005U,0x308U,0x20U,0x2060U,
2,0x50005U,0x200BU,
3,0x50005U,0x20U,0x200BU,
3,0x50005U,0x308U,0x200BU,
4,0x50005U,0x308U,0x20U,0x200BU,
2,0x50005U,0x8001F1E6U,
3,0x50005U,0x20U,0x8001F1E6U,
3,0x50005U,0x308U,0x8001F1E6U,
4,0x50005U,0x308U,0x20U,0x8001F1E6U,
2,0x50005U,0x8000261DU,
3,0x50005U,0x20U,0x8000261DU,
3,0x50005U,0x308U,0x8000261DU,
4,0x50005U,0x308U,0x20U,0x8000261DU,
2,0x50005U,0x8001F3FBU,
3,0x50005U,0x20U,0x8001F3FBU,
3,0x50005U,0x308U,0x8001F3FBU,
4,0x50005U,0x308U,0x20U,0x8001F3FBU,
2,0x50005U,0x29U,
3,0x50005U,0x20U,0x29U,
3,0x50005U,0x308U,0x29U,
4,0x50005U,0x308U,0x20U,0x29U,
2,0x50005U,0x28U,
3,0x50005U,0x20U,0x80000028U,
3,0x50005U,0x308U,0x28U,
4,0x50005U,0x308U,0x20U,0x80000028U,
2,0x50005U,0x1U,
3,0x50005U,0x20U,0x80000001U,
3,0x50005U,0x308U,0x1U,
4,0x50005U,0x308U,0x20U,0x80000001U,
2,0x50005U,0x200DU,
3,0x50005U,0x20U,0x8000200DU,
3,0x50005U,0x308U,0x200DU,
4,0x50005U,0x308U,0x20U,0x8000200DU,
2,0x50005U,0xA7U,
3,0x50005U,0x20U,0x800000A7U,
3,0x50005U,0x308U,0xA7U,
4,0x50005U,0x308U,0x20U,0x800000A7U,
2,0x50005U,0x50005U,
3,0x50005U,0x20U,0x80050005U,
3,0x50005U,0x308U,0x50005U,
4,0x50005U,0x308U,0x20U,0x80050005U,
2,0x50005U,0xE01U,
3,0x50005U,0x20U,0x80000E01U,
3,0x50005U,0x308U,0xE01U,
4,0x50005U,0x308U,0x20U,0x80000E01U,
2,0x50005U,0x3041U,
3,0x50005U,0x20U,0x80003041U,
3,0x50005U,0x308U,0x3041U,
4,0x50005U,0x308U,0x20U,0x80003041U,
2,0xE01U,0x23U,
3,0xE01U,0x20U,0x80000023U,
3,0xE01U,0x308U,0x23U,
4,0xE01U,0x308U,0x20U,0x80000023U,
2,0xE01U,0x80002014U,
3,0xE01U,0x20U,0x80002014U,
3,0xE01U,0x308U,0x80002014U,
4,0xE01U,0x308U,0x20U,0x80002014U,
2,0xE01U,0x9U,
3,0xE01U,0x20U,0x80000009U,
3,0xE01U,0x308U,0x9U,
4,0xE01U,0x308U,0x20U,0x80000009U,
2,0xE01U,0x800000B4U,
3,0xE01U,0x20U,0x800000B4U,
3,0xE01U,0x308U,0x800000B4U,
4,0xE01U,0x308U,0x20U,0x800000B4U,
2,0xE01U,0xBU,
3,0xE01U,0x20U,0xBU,
3,0xE01U,0x308U,0xBU,
4,0xE01U,0x308U,0x20U,0xBU,
2,0xE01U,0x8000FFFCU,
3,0xE01U,0x20U,0x8000FFFCU,
3,0xE01U,0x308U,0x8000FFFCU,
4,0xE01U,0x308U,0x20U,0x8000FFFCU,
2,0xE01U,0x7DU,
3,0xE01U,0x20U,0x7DU,
3,0xE01U,0x308U,0x7DU,
4,0xE01U,0x308U,0x20U,0x7DU,
2,0xE01U,0xDU,
3,0xE01U,0x20U,0xDU,
3,0xE01U,0x308U,0xDU,
4,0xE01U,0x308U,0x20U,0xDU,
2,0xE01U,0x21U,
3,0xE01U,0x20U,0x21U,
3,0xE01U,0x308U,0x21U,
4,0xE01U,0x308U,0x20U,0x21U,
2,0xE01U,0xA0U,
3,0xE01U,0x20U,0x800000A0U,
3,0xE01U,0x308U,0xA0U,
4,0xE01U,0x308U,0x20U,0x800000A0U,
2,0xE01U,0x8000AC00U,
3,0xE01U,0x20U,0x8000AC00U,
3,0xE01U,0x308U,0x8000AC00U,
4,0xE01U,0x308U,0x20U,0x8000AC00U,
2,0xE01U,0x8000AC01U,
3,0xE01U,0x20U,0x8000AC01U,
3,0xE01U,0x308U,0x8000AC01U,
4,0xE01U,0x308U,0x20U,0x8000AC01U,
2,0xE01U,0x5D0U,
3,0xE01U,0x20U,0x800005D0U,
3,0xE01U,0x308U,0x5D0U,
4,0xE01U,0x308U,0x20U,0x800005D0U,
2,0xE01U,0x2DU,
3,0xE01U,0x20U,0x8000002DU,
3,0xE01U,0x308U,0x2DU,
4,0xE01U,0x308U,0x20U,0x8000002DU,
2,0xE01U,0x8000231AU,
3,0xE01U,0x20U,0x8000231AU,
3,0xE01U,0x308U,0x8000231AU,
4,0xE01U,0x308U,0x20U,0x8000231AU,
2,0xE01U,0x2024U,
3,0xE01U,0x20U,0x80002024U,
3,0xE01U,0x308U,0x2024U,
4,0xE01U,0x308U,0x20U,0x80002024U,
2,0xE01U,0x2CU,
3,0xE01U,0x20U,0x2CU,
3,0xE01U,0x308U,0x2CU,
4,0xE01U,0x308U,0x20U,0x2CU,
2,0xE01U,0x80001100U,
3,0xE01U,0x20U,0x80001100U,
3,0xE01U,0x308U,0x80001100U,
4,0xE01U,0x308U,0x20U,0x80001100U,
2,0xE01U,0x800011A8U,
3,0xE01U,0x20U,0x800011A8U,
3,0xE01U,0x308U,0x800011A8U,
4,0xE01U,0x308U,0x20U,0x800011A8U,
2,0xE01U,0x80001160U,
3,0xE01U,0x20U,0x80001160U,
3,0xE01U,0x308U,0x80001160U,
4,0xE01U,0x308U,0x20U,0x80001160U,
2,0xE01U,0xAU,
3,0xE01U,0x20U,0xAU,
3,0xE01U,0x308U,0xAU,
4,0xE01U,0x308U,0x20U,0xAU,
2,0xE01U,0x85U,
3,0xE01U,0x20U,0x85U,
3,0xE01U,0x308U,0x85U,
4,0xE01U,0x308U,0x20U,0x85U,
2,0xE01U,0x17D6U,
3,0xE01U,0x20U,0x800017D6U,
3,0xE01U,0x308U,0x17D6U,
4,0xE01U,0x308U,0x20U,0x800017D6U,
2,0xE01U,0x30U,
3,0xE01U,0x20U,0x80000030U,
3,0xE01U,0x308U,0x30U,
4,0xE01U,0x308U,0x20U,0x80000030U,
2,0xE01U,0x80002329U,
3,0xE01U,0x20U,0x80002329U,
3,0xE01U,0x308U,0x80002329U,
4,0xE01U,0x308U,0x20U,0x80002329U,
2,0xE01U,0x25U,
3,0xE01U,0x20U,0x80000025U,
3,0xE01U,0x308U,0x25U,
4,0xE01U,0x308U,0x20U,0x80000025U,
2,0xE01U,0x24U,
3,0xE01U,0x20U,0x80000024U,
3,0xE01U,0x308U,0x24U,
4,0xE01U,0x308U,0x20U,0x80000024U,
2,0xE01U,0x22U,
3,0xE01U,0x20U,0x80000022U,
3,0xE01U,0x308U,0x22U,
4,0xE01U,0x308U,0x20U,0x80000022U,
2,0xE01U,0x20U,
3,0xE01U,0x20U,0x20U,
3,0xE01U,0x308U,0x20U,
4,0xE01U,0x308U,0x20U,0x20U,
2,0xE01U,0x2FU,
3,0xE01U,0x20U,0x2FU,
3,0xE01U,0x308U,0x2FU,
4,0xE01U,0x308U,0x20U,0x2FU,
2,0xE01U,0x2060U,
3,0xE01U,0x20U,0x2060U,
3,0xE01U,0x308U,0x2060U,
4,0xE01U,0x308U,0x20U,0x2060U,
2,0xE01U,0x200BU,
3,0xE01U,0x20U,0x200BU,
3,0xE01U,0x308U,0x200BU,
4,0xE01U,0x308U,0x20U,0x200BU,
2,0xE01U,0x8001F1E6U,
3,0xE01U,0x20U,0x8001F1E6U,
3,0xE01U,0x308U,0x8001F1E6U,
4,0xE01U,0x308U,0x20U,0x8001F1E6U,
2,0xE01U,0x8000261DU,
3,0xE01U,0x20U,0x8000261DU,
3,0xE01U,0x308U,0x8000261DU,
4,0xE01U,0x308U,0x20U,0x8000261DU,
2,0xE01U,0x8001F3FBU,
3,0xE01U,0x20U,0x8001F3FBU,
3,0xE01U,0x308U,0x8001F3FBU,
4,0xE01U,0x308U,0x20U,0x8001F3FBU,
2,0xE01U,0x29U,
3,0xE01U,0x20U,0x29U,
3,0xE01U,0x308U,0x29U,
4,0xE01U,0x308U,0x20U,0x29U,
2,0xE01U,0x28U,
3,0xE01U,0x20U,0x80000028U,
3,0xE01U,0x308U,0x28U,
4,0xE01U,0x308U,0x20U,0x80000028U,
2,0xE01U,0x1U,
3,0xE01U,0x20U,0x80000001U,
3,0xE01U,0x308U,0x1U,
4,0xE01U,0x308U,0x20U,0x80000001U,
2,0xE01U,0x200DU,
3,0xE01U,0x20U,0x8000200DU,
3,0xE01U,0x308U,0x200DU,
4,0xE01U,0x308U,0x20U,0x8000200DU,
2,0xE01U,0xA7U,
3,0xE01U,0x20U,0x800000A7U,
3,0xE01U,0x308U,0xA7U,
4,0xE01U,0x308U,0x20U,0x800000A7U,
2,0xE01U,0x50005U,
3,0xE01U,0x20U,0x80050005U,
3,0xE01U,0x308U,0x50005U,
4,0xE01U,0x308U,0x20U,0x80050005U,
2,0xE01U,0xE01U,
3,0xE01U,0x20U,0x80000E01U,
3,0xE01U,0x308U,0xE01U,
4,0xE01U,0x308U,0x20U,0x80000E01U,
2,0xE01U,0x3041U,
3,0xE01U,0x20U,0x80003041U,
3,0xE01U,0x308U,0x3041U,
4,0xE01U,0x308U,0x20U,0x80003041U,
2,0x3041U,0x80000023U,
3,0x3041U,0x20U,0x80000023U,
3,0x3041U,0x308U,0x80000023U,
4,0x3041U,0x308U,0x20U,0x80000023U,
2,0x3041U,0x80002014U,
3,0x3041U,0x20U,0x80002014U,
3,0x3041U,0x308U,0x80002014U,
4,0x3041U,0x308U,0x20U,0x80002014U,
2,0x3041U,0x9U,
3,0x3041U,0x20U,0x80000009U,
3,0x3041U,0x308U,0x9U,
4,0x3041U,0x308U,0x20U,0x80000009U,
2,0x3041U,0x800000B4U,
3,0x3041U,0x20U,0x800000B4U,
3,0x3041U,0x308U,0x800000B4U,
4,0x3041U,0x308U,0x20U,0x800000B4U,
2,0x3041U,0xBU,
3,0x3041U,0x20U,0xBU,
3,0x3041U,0x308U,0xBU,
4,0x3041U,0x308U,0x20U,0xBU,
2,0x3041U,0x8000FFFCU,
3,0x3041U,0x20U,0x8000FFFCU,
3,0x3041U,0x308U,0x8000FFFCU,
4,0x3041U,0x308U,0x20U,0x8000FFFCU,
2,0x3041U,0x7DU,
3,0x3041U,0x20U,0x7DU,
3,0x3041U,0x308U,0x7DU,
4,0x3041U,0x308U,0x20U,0x7DU,
2,0x3041U,0xDU,
3,0x3041U,0x20U,0xDU,
3,0x3041U,0x308U,0xDU,
4,0x3041U,0x308U,0x20U,0xDU,
2,0x3041U,0x21U,
3,0x3041U,0x20U,0x21U,
3,0x3041U,0x308U,0x21U,
4,0x3041U,0x308U,0x20U,0x21U,
2,0x3041U,0xA0U,
3,0x3041U,0x20U,0x800000A0U,
3,0x3041U,0x308U,0xA0U,
4,0x3041U,0x308U,0x20U,0x800000A0U,
2,0x3041U,0x8000AC00U,
3,0x3041U,0x20U,0x8000AC00U,
3,0x3041U,0x308U,0x8000AC00U,
4,0x3041U,0x308U,0x20U,0x8000AC00U,
2,0x3041U,0x8000AC01U,
3,0x3041U,0x20U,0x8000AC01U,
3,0x3041U,0x308U,0x8000AC01U,
4,0x3041U,0x308U,0x20U,0x8000AC01U,
2,0x3041U,0x800005D0U,
3,0x3041U,0x20U,0x800005D0U,
3,0x3041U,0x308U,0x800005D0U,
4,0x3041U,0x308U,0x20U,0x800005D0U,
2,0x3041U,0x2DU,
3,0x3041U,0x20U,0x8000002DU,
3,0x3041U,0x308U,0x2DU,
4,0x3041U,0x308U,0x20U,0x8000002DU,
2,0x3041U,0x8000231AU,
3,0x3041U,0x20U,0x8000231AU,
3,0x3041U,0x308U,0x8000231AU,
4,0x3041U,0x308U,0x20U,0x8000231AU,
2,0x3041U,0x2024U,
3,0x3041U,0x20U,0x80002024U,
3,0x3041U,0x308U,0x2024U,
4,0x3041U,0x308U,0x20U,0x80002024U,
2,0x3041U,0x2CU,
3,0x3041U,0x20U,0x2CU,
3,0x3041U,0x308U,0x2CU,
4,0x3041U,0x308U,0x20U,0x2CU,
2,0x3041U,0x80001100U,
3,0x3041U,0x20U,0x80001100U,
3,0x3041U,0x308U,0x80001100U,
4,0x3041U,0x308U,0x20U,0x80001100U,
2,0x3041U,0x800011A8U,
3,0x3041U,0x20U,0x800011A8U,
3,0x3041U,0x308U,0x800011A8U,
4,0x3041U,0x308U,0x20U,0x800011A8U,
2,0x3041U,0x80001160U,
3,0x3041U,0x20U,0x80001160U,
3,0x3041U,0x308U,0x80001160U,
4,0x3041U,0x308U,0x20U,0x80001160U,
2,0x3041U,0xAU,
3,0x3041U,0x20U,0xAU,
3,0x3041U,0x308U,0xAU,
4,0x3041U,0x308U,0x20U,0xAU,
2,0x3041U,0x85U,
3,0x3041U,0x20U,0x85U,
3,0x3041U,0x308U,0x85U,
4,0x3041U,0x308U,0x20U,0x85U,
2,0x3041U,0x17D6U,
3,0x3041U,0x20U,0x800017D6U,
3,0x3041U,0x308U,0x17D6U,
4,0x3041U,0x308U,0x20U,0x800017D6U,
2,0x3041U,0x80000030U,
3,0x3041U,0x20U,0x80000030U,
3,0x3041U,0x308U,0x80000030U,
4,0x3041U,0x308U,0x20U,0x80000030U,
2,0x3041U,0x80002329U,
3,0x3041U,0x20U,0x80002329U,
3,0x3041U,0x308U,0x80002329U,
4,0x3041U,0x308U,0x20U,0x80002329U,
2,0x3041U,0x80000025U,
3,0x3041U,0x20U,0x80000025U,
3,0x3041U,0x308U,0x80000025U,
4,0x3041U,0x308U,0x20U,0x80000025U,
2,0x3041U,0x80000024U,
3,0x3041U,0x20U,0x80000024U,
3,0x3041U,0x308U,0x80000024U,
4,0x3041U,0x308U,0x20U,0x80000024U,
2,0x3041U,0x22U,
3,0x3041U,0x20U,0x80000022U,
3,0x3041U,0x308U,0x22U,
4,0x3041U,0x308U,0x20U,0x80000022U,
2,0x3041U,0x20U,
3,0x3041U,0x20U,0x20U,
3,0x3041U,0x308U,0x20U,
4,0x3041U,0x308U,0x20U,0x20U,
2,0x3041U,0x2FU,
3,0x3041U,0x20U,0x2FU,
3,0x3041U,0x308U,0x2FU,
4,0x3041U,0x308U,0x20U,0x2FU,
2,0x3041U,0x2060U,
3,0x3041U,0x20U,0x2060U,
3,0x3041U,0x308U,0x2060U,
4,0x3041U,0x308U,0x20U,0x2060U,
2,0x3041U,0x200BU,
3,0x3041U,0x20U,0x200BU,
3,0x3041U,0x308U,0x200BU,
4,0x3041U,0x308U,0x20U,0x200BU,
2,0x3041U,0x8001F1E6U,
3,0x3041U,0x20U,0x8001F1E6U,
3,0x3041U,0x308U,0x8001F1E6U,
4,0x3041U,0x308U,0x20U,0x8001F1E6U,
2,0x3041U,0x8000261DU,
3,0x3041U,0x20U,0x8000261DU,
3,0x3041U,0x308U,0x8000261DU,
4,0x3041U,0x308U,0x20U,0x8000261DU,
2,0x3041U,0x8001F3FBU,
3,0x3041U,0x20U,0x8001F3FBU,
3,0x3041U,0x308U,0x8001F3FBU,
4,0x3041U,0x308U,0x20U,0x8001F3FBU,
2,0x3041U,0x29U,
3,0x3041U,0x20U,0x29U,
3,0x3041U,0x308U,0x29U,
4,0x3041U,0x308U,0x20U,0x29U,
2,0x3041U,0x80000028U,
3,0x3041U,0x20U,0x80000028U,
3,0x3041U,0x308U,0x80000028U,
4,0x3041U,0x308U,0x20U,0x80000028U,
2,0x3041U,0x1U,
3,0x3041U,0x20U,0x80000001U,
3,0x3041U,0x308U,0x1U,
4,0x3041U,0x308U,0x20U,0x80000001U,
2,0x3041U,0x200DU,
3,0x3041U,0x20U,0x8000200DU,
3,0x3041U,0x308U,0x200DU,
4,0x3041U,0x308U,0x20U,0x8000200DU,
2,0x3041U,0x800000A7U,
3,0x3041U,0x20U,0x800000A7U,
3,0x3041U,0x308U,0x800000A7U,
4,0x3041U,0x308U,0x20U,0x800000A7U,
2,0x3041U,0x80050005U,
3,0x3041U,0x20U,0x80050005U,
3,0x3041U,0x308U,0x80050005U,
4,0x3041U,0x308U,0x20U,0x80050005U,
2,0x3041U,0x80000E01U,
3,0x3041U,0x20U,0x80000E01U,
3,0x3041U,0x308U,0x80000E01U,
4,0x3041U,0x308U,0x20U,0x80000E01U,
2,0x3041U,0x3041U,
3,0x3041U,0x20U,0x80003041U,
3,0x3041U,0x308U,0x3041U,
4,0x3041U,0x308U,0x20U,0x80003041U,
5,0xDU,0xAU,0x80000061U,0xAU,0x80000308U,
2,0x61U,0x308U,
3,0x20U,0x8000200DU,0x646U,
3,0x646U,0x200DU,0x20U,
2,0xBU,0x80003041U,
2,0xDU,0x80003041U,
2,0x85U,0x80003041U,
2,0x200DU,0x261DU,
2,0x3041U,0x2060U,
2,0x2060U,0x3041U,
3,0x3041U,0x308U,0xA0U,
2,0x200DU,0xA0U,
2,0x200DU,0x2FU,
2,0x2014U,0x2014U,
2,0x3041U,0x8000FFFCU,
2,0xFFFCU,0x80003041U,
2,0x3041U,0x2DU,
2,0xE01U,0x2024U,
2,0x21U,0x2024U,
2,0x2024U,0x2024U,
2,0x30U,0x2024U,
2,0x261DU,0x25U,
2,0xE01U,0x30U,
2,0x24U,0x261DU,
2,0x24U,0xE01U,
2,0x25U,0xE01U,
2,0x1100U,0x1160U,
2,0x1160U,0x1160U,
2,0x11A8U,0x11A8U,
2,0x1160U,0x2024U,
2,0x1160U,0x25U,
2,0x24U,0x1160U,
2,0x261DU,0x1F3FBU,
5,0x66U,0x69U,0x6EU,0x61U,0x6CU,
5,0x63U,0x61U,0x6EU,0x27U,0x74U,
5,0x63U,0x61U,0x6EU,0x2019U,0x74U,
9,0x27U,0x63U,0x61U,0x6EU,0x27U,0x20U,0x8000006EU,0x6FU,0x74U,
9,0x63U,0x61U,0x6EU,0x20U,0x80000027U,0x6EU,0x6FU,0x74U,0x27U,
11,0x62U,0x75U,0x67U,0x28U,0x73U,0x29U,0x20U,0x20U,0x20U,0x20U,0x20U,
12,0x62U,0x75U,0x67U,0x28U,0x73U,0x29U,0xA0U,0x20U,0x20U,0x20U,0x20U,0x20U,
11,0x2EU,0x2EU,0x8000307EU,0x80003059U,0x3002U,0x80000058U,0x4DU,0x4CU,0x8000306EU,0x2EU,0x2EU,
5,0x61U,0x62U,0xADU,0x80000062U,0x79U,
2,0x2DU,0x33U,
4,0x65U,0x2EU,0x67U,0x2EU,
4,0x4E00U,0x2EU,0x80004E00U,0x2EU,
4,0x61U,0x20U,0x20U,0x80000062U,
5,0x61U,0x20U,0x20U,0x200BU,0x80000062U,
4,0x61U,0x20U,0x80000308U,0x62U,
10,0x31U,0x308U,0x62U,0x28U,0x61U,0x29U,0x2DU,0x80000028U,0x62U,0x29U,
13,0x67U,0x69U,0x76U,0x65U,0x20U,0x80000062U,0x6FU,0x6FU,0x6BU,0x28U,0x73U,0x29U,0x2EU,
4,0x307EU,0x80000028U,0x3059U,0x29U,
9,0x66U,0x69U,0x6EU,0x64U,0x20U,0x2EU,0x63U,0x6FU,0x6DU,
16,0x65U,0x71U,0x75U,0x61U,0x6CU,0x73U,0x20U,0x2EU,0x80000033U,0x35U,0x20U,0x80000063U,0x65U,0x6EU,0x74U,0x73U,
5,0x28U,0x73U,0x29U,0x68U,0x65U,
5,0x7BU,0x73U,0x7DU,0x80000068U,0x65U,
10,0x2C8U,0x73U,0x49U,0x6CU,0x259U,0x62U,0x28U,0x259U,0x29U,0x6CU,
10,0x2C8U,0x73U,0x49U,0x6CU,0x259U,0x62U,0x7BU,0x259U,0x7DU,0x8000006CU,
8,0x63U,0x6FU,0x64U,0x65U,0x28U,0x73U,0x29U,0x2EU,
8,0x63U,0x6FU,0x64U,0x65U,0x28U,0x73U,0x2EU,0x29U,
8,0x63U,0x6FU,0x64U,0x65U,0x28U,0x73U,0x29U,0x21U,
8,0x63U,0x6FU,0x64U,0x65U,0x28U,0x73U,0x21U,0x29U,
9,0x63U,0x6FU,0x64U,0x65U,0x5CU,0x80000028U,0x73U,0x5CU,0x29U,
9,0x63U,0x6FU,0x64U,0x65U,0x28U,0x20U,0x73U,0x20U,0x29U,
7,0x63U,0x6FU,0x64U,0x65U,0x7BU,0x73U,0x7DU,
8,0x63U,0x6FU,0x64U,0x65U,0x7BU,0x73U,0x7DU,0x2EU,
8,0x63U,0x6FU,0x64U,0x65U,0x7BU,0x73U,0x7DU,0x21U,
9,0x63U,0x6FU,0x64U,0x65U,0x5CU,0x8000007BU,0x73U,0x5CU,0x7DU,
9,0x63U,0x6FU,0x64U,0x65U,0x7BU,0x20U,0x73U,0x20U,0x7DU,
10,0x63U,0x6FU,0x64U,0x28U,0x65U,0x29U,0x2026U,0x80000028U,0x73U,0x29U,
10,0x28U,0x63U,0x6FU,0x64U,0x28U,0x65U,0x29U,0x2026U,0x29U,0x73U,
10,0x63U,0x6FU,0x64U,0x7BU,0x65U,0x7DU,0x2026U,0x8000007BU,0x73U,0x7DU,
10,0x7BU,0x63U,0x6FU,0x64U,0x7BU,0x65U,0x7DU,0x2026U,0x7DU,0x80000073U,
10,0x28U,0x63U,0x6FU,0x6EU,0x2DU,0x29U,0x6CU,0x61U,0x6EU,0x67U,
10,0x28U,0x63U,0x6FU,0x6EU,0xADU,0x29U,0x6CU,0x61U,0x6EU,0x67U,
10,0x28U,0x63U,0x6FU,0x6EU,0x2011U,0x29U,0x6CU,0x61U,0x6EU,0x67U,
10,0x28U,0x63U,0x6FU,0x6EU,0x29U,0x2DU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x28U,0x63U,0x6FU,0x6EU,0x29U,0xADU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x28U,0x63U,0x6FU,0x6EU,0x29U,0x2011U,0x6CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0x2DU,0x7DU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0xADU,0x7DU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0x2011U,0x7DU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0x7DU,0x2DU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0x7DU,0xADU,0x8000006CU,0x61U,0x6EU,0x67U,
10,0x7BU,0x63U,0x6FU,0x6EU,0x7DU,0x2011U,0x6CU,0x61U,0x6EU,0x67U,
11,0x63U,0x72U,0x65U,0x301U,0x28U,0x65U,0x301U,0x29U,0x80000028U,0x65U,0x29U,
17,0x63U,0x72U,0x65U,0x301U,0x5BU,0x65U,0x72U,0x7CU,0x80000065U,0x301U,0x28U,0x65U,0x29U,0x80000028U,0x73U,0x29U,0x5DU,
17,0x63U,0x72U,0x65U,0x301U,0x7BU,0x65U,0x72U,0x7CU,0x80000065U,0x301U,0x28U,0x65U,0x29U,0x80000028U,0x73U,0x29U,0x7DU,
13,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x28U,0x308U,0x29U,0x80000028U,0x65U,0x308U,0x29U,
15,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x28U,0xABU,0x308U,0xBBU,0x29U,0x80000028U,0x65U,0x308U,0x29U,
17,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x28U,0xABU,0x20U,0x80000308U,0x20U,0x800000BBU,0x29U,0x80000028U,0x65U,0x308U,0x29U,
19,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0xABU,0x20U,0x28U,0x20U,0x308U,0x20U,0x29U,0x20U,0x800000BBU,0x28U,0x65U,0x308U,0x29U,
19,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0xABU,0x202FU,0x28U,0x20U,0x308U,0x20U,0x29U,0x202FU,0xBBU,0x28U,0x65U,0x308U,0x29U,
13,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x7BU,0x308U,0x7DU,0x80000028U,0x65U,0x308U,0x29U,
15,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x7BU,0xABU,0x308U,0xBBU,0x7DU,0x80000028U,0x65U,0x308U,0x29U,
17,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0x7BU,0xABU,0x20U,0x80000308U,0x20U,0x800000BBU,0x7DU,0x80000028U,0x65U,0x308U,0x29U,
19,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0xABU,0x20U,0x7BU,0x20U,0x308U,0x20U,0x7DU,0x20U,0x800000BBU,0x28U,0x65U,0x308U,0x29U,
19,0x61U,0x6DU,0x62U,0x69U,0x67U,0x75U,0xABU,0x202FU,0x7BU,0x20U,0x308U,0x20U,0x7DU,0x202FU,0xBBU,0x28U,0x65U,0x308U,0x29U,
21,0x28U,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0xADU,0x80002011U,0x29U,0x6EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
21,0x28U,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0xADU,0x29U,0x2011U,0x6EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
21,0x28U,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0x29U,0xADU,0x80002011U,0x6EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
21,0x7BU,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0xADU,0x80002011U,0x7DU,0x8000006EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
21,0x7BU,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0xADU,0x7DU,0x2011U,0x6EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
21,0x7BU,0x63U,0x7AU,0x65U,0x72U,0x77U,0x6FU,0x6EU,0x6FU,0x7DU,0xADU,0x80002011U,0x6EU,0x69U,0x65U,0x62U,0x69U,0x65U,0x73U,0x6BU,0x61U,
14,0x6FU,0x70U,0x65U,0x72U,0x61U,0x74U,0x6FU,0x72U,0x5BU,0x5DU,0x80000028U,0x30U,0x29U,0x3BU,
14,0x6FU,0x70U,0x65U,0x72U,0x61U,0x74U,0x6FU,0x72U,0x5BU,0x5DU,0x80000028U,0x29U,0x8000007BU,0x7DU,
6,0x672CU,0x80000028U,0x3092U,0x29U,0x80008AADU,0x80003080U,
8,0x672CU,0x80000028U,0x300CU,0x3092U,0x300DU,0x29U,0x80008AADU,0x80003080U,
8,0x672CU,0x8000300CU,0x28U,0x3092U,0x29U,0x300DU,0x80008AADU,0x80003080U,
6,0x672CU,0x8000007BU,0x3092U,0x7DU,0x80008AADU,0x80003080U,
8,0x672CU,0x8000007BU,0x300CU,0x3092U,0x300DU,0x7DU,0x80008AADU,0x80003080U,
8,0x672CU,0x8000005BU,0x28U,0x3092U,0x29U,0x5DU,0x80008AADU,0x80003080U,
9,0x28U,0x30CBU,0x30E5U,0x30FCU,0x30FBU,0x29U,0x800030E8U,0x30FCU,0x800030AFU,
9,0x28U,0x30CBU,0x30E5U,0x30FCU,0x29U,0x30FBU,0x800030E8U,0x30FCU,0x800030AFU,
9,0x7BU,0x30CBU,0x30E5U,0x30FCU,0x30FBU,0x7DU,0x800030E8U,0x30FCU,0x800030AFU,
9,0x7BU,0x30CBU,0x30E5U,0x30FCU,0x7DU,0x30FBU,0x800030E8U,0x30FCU,0x800030AFU,
13,0x28U,0x1850U,0x1846U,0x1851U,0x1846U,0x80001806U,0x29U,0x182AU,0x1822U,0x1834U,0x1822U,0x182DU,0x180CU,
13,0x28U,0x1850U,0x1846U,0x1851U,0x1846U,0x29U,0x80001806U,0x182AU,0x1822U,0x1834U,0x1822U,0x182DU,0x180CU,
13,0x7BU,0x1850U,0x1846U,0x1851U,0x1846U,0x80001806U,0x7DU,0x8000182AU,0x1822U,0x1834U,0x1822U,0x182DU,0x180CU,
13,0x7BU,0x1850U,0x1846U,0x1851U,0x1846U,0x7DU,0x80001806U,0x182AU,0x1822U,0x1834U,0x1822U,0x182DU,0x180CU,
14,0x28U,0x68U,0x74U,0x74U,0x70U,0x3AU,0x2FU,0x2FU,0x29U,0x78U,0x6EU,0x2DU,0x2DU,0x80000061U,
14,0x7BU,0x68U,0x74U,0x74U,0x70U,0x3AU,0x2FU,0x2FU,0x7DU,0x80000078U,0x6EU,0x2DU,0x2DU,0x80000061U,
24,0x28U,0x30U,0x2CU,0x31U,0x29U,0x2BU,0x28U,0x32U,0x2CU,0x33U,0x29U,0x2295U,0x28U,0x2212U,0x34U,0x2CU,0x35U,0x29U,0x2296U,0x28U,0x36U,0x2CU,0x37U,0x29U,
24,0x7BU,0x30U,0x2CU,0x31U,0x7DU,0x2BU,0x7BU,0x32U,0x2CU,0x33U,0x7DU,0x80002295U,0x7BU,0x2212U,0x34U,0x2CU,0x35U,0x7DU,0x80002296U,0x7BU,0x36U,0x2CU,0x37U,0x7DU,
2,0x61U,0x62U,
3,0x61U,0x62U,0x20U,
4,0x61U,0x62U,0x20U,0x80000063U,
2,0x61U,0x8000307EU,
7,0x939U,0x93FU,0x928U,0x94DU,0x926U,0x940U,0x20U,
12,0x92FU,0x938U,0x917U,0x941U,0x91AU,0x93FU,0x924U,0x940U,0x92FU,0x938U,0x93EU,0x20U,
2,0x5370U,0x8000672CU,
2,0x8AADU,0x80003080U,
4,0x5165U,0x8000529BU,0x80003057U,0x800030A8U,
3,0x4F4DU,0x3002U,0x80008A18U,
2,0x672CU,0x3002U,
3,0x967AU,0x300DU,0x8000306EU,
3,0x3057U,0x3087U,0x80003046U,
3,0x307EU,0x80000061U,0x8000672CU,
8,0xC5C6U,0x8000C5B4U,0x8000C694U,0x20U,0x8000006FU,0x72U,0x20U,0x8000BABBU,
4,0x307EU,0x80000061U,0x62U,0x20U,
2,0x3067U,0x80004F7FU,
2,0x3059U,0x8000308BU,
3,0x306EU,0x800030D1U,0x800030F3U,
6,0x3046U,0x3000U,0x80003048U,0x3000U,0x8000304AU,0x300DU,
6,0x308BU,0x20U,0x8000C740U,0x8000C601U,0x20U,0x8000306BU,
4,0x3057U,0x3087U,0x80003046U,0x3002U,
3,0x30E0U,0x8000306EU,0x80004E00U,
2,0x30D5U,0x800030EAU,
4,0x30D5U,0x800030EAU,0x30FCU,0x8000767EU,
9,0x30D4U,0x30E5U,0x30FCU,0x800030BFU,0x80003067U,0x80004F7FU,0x80007528U,0x80003059U,0x8000308BU,
6,0x30BFU,0x30FCU,0x800030ADU,0x30FCU,0x80003092U,0x800062BCU,
3,0x30B7U,0x30E7U,0x800030F3U,
4,0x61U,0x2EU,0x80000032U,0x20U,
5,0x61U,0x2EU,0x80000032U,0x20U,0x80000915U,
5,0x61U,0x2EU,0x80000032U,0x20U,0x8000672CU,
5,0x61U,0x2EU,0x80000032U,0x3000U,0x8000672CU,
5,0x61U,0x2EU,0x80000032U,0x3000U,0x8000307EU,
5,0x61U,0x2EU,0x80000032U,0x3000U,0x80000033U,
5,0x61U,0x62U,0x2EU,0x20U,0x80000032U,
5,0x41U,0x2EU,0x80000031U,0x20U,0x8000BABBU,
9,0xBD24U,0x8000C5B4U,0x2EU,0x20U,0x80000041U,0x2EU,0x80000032U,0x20U,0x8000BCFCU,
9,0xBD10U,0x8000C694U,0x2EU,0x20U,0x80000041U,0x2EU,0x80000033U,0x20U,0x8000BABBU,
8,0xC694U,0x2EU,0x20U,0x80000041U,0x2EU,0x80000034U,0x20U,0x8000BABBU,
5,0x61U,0x2EU,0x80000032U,0x3000U,0x8000300CU,
11,0x306BU,0x8000300CU,0x30D0U,0x80000028U,0x62U,0x61U,0x29U,0x300DU,0x80003084U,0x8000300CU,0x30B9U,
11,0x308BU,0x8000300CU,0x55U,0x4BU,0x800030DDU,0x800030F3U,0x800030C9U,0x300DU,0xFF09U,0x3001U,0x800030A8U,
12,0x306FU,0x3001U,0x8000300CU,0x3DU,0x72U,0x61U,0x6EU,0x64U,0x28U,0x29U,0x300DU,0x80003068U,
6,0x3067U,0x3001U,0x8000300CU,0x21U,0x300DU,0x80003068U,
3,0x8A33U,0x8000300CU,0x3059U,
7,0x3066U,0x8000300CU,0xBD24U,0x8000C5B4U,0x3FU,0x300DU,0x80003068U,
3,0x306EU,0x8000300CU,0x305DU,
3,0x306FU,0x8000300CU,0x30A8U,
6,0x4F8BU,0xFF1AU,0x8000300CU,0x3042U,0x3000U,0x80003044U,
6,0x304FU,0x3001U,0x8000300CU,0xD3C9U,0x8000C591U,0x8000C740U,
9,0x306BU,0x8000300CU,0xC81CU,0x8000BAA9U,0x80000028U,0x984CU,0x8000540DU,0x29U,0x8000C740U,
5,0x5178U,0x8000300EU,0x30A6U,0x30A3U,0x800030ADU,
4,0x3067U,0x8000300EU,0x82F1U,0x80008A9EU,
5,0x28U,0x73U,0x29U,0x20U,0x8000672CU,
5,0x28U,0x73U,0x29U,0x20U,0x8000307EU,
5,0x28U,0x73U,0x29U,0x20U,0x800030AFU,
9,0x308BU,0x3002U,0x80000064U,0x6FU,0x67U,0x8000FF08U,0x72ACU,0xFF09U,0x80003092U,
3,0x672CU,0x8000FF08U,0x307EU,
4,0x672CU,0x20U,0x80000028U,0x61U,
6,0x70B9U,0x20U,0x8000005BU,0x7DE8U,0x800096C6U,0x5DU,
5,0x61U,0x28U,0x73U,0x29U,0x20U,
9,0xFF08U,0x30B6U,0x30FBU,0x800030AFU,0x800030A4U,0x30C3U,0x800030AFU,0x30FBU,0x800030D6U,
8,0x70U,0x8000FF08U,0x30AFU,0x800030A4U,0x30C3U,0x800030AFU,0x30FBU,0x800030D6U,
4,0x61U,0x62U,0x8000FF08U,0x30AFU,
4,0x28U,0x5370U,0x8000672CU,0x29U,
3,0x30B9U,0x8000FF08U,0x3044U,
3,0x30C9U,0x8000FF08U,0x30DDU,
4,0x30C9U,0x20U,0x80000028U,0x8CEAU,
4,0x73U,0x29U,0x300DU,0x8000307EU,
3,0x61U,0xFF09U,0x300FU,
4,0x308BU,0x300DU,0xFF09U,0x8000306FU,
5,0x30C9U,0x300DU,0xFF09U,0x3001U,0x800030A8U,
5,0x72U,0x6BU,0x29U,0x300DU,0x80003082U,
10,0x30AFU,0x80000028U,0x61U,0x62U,0x20U,0x80000063U,0x64U,0x29U,0x300DU,0x80003082U,
8,0x30F3U,0x30FBU,0x800030DEU,0x30FCU,0x800030AFU,0x80000028U,0x65U,0x78U,
8,0x30DEU,0x30FCU,0x80000028U,0x6DU,0x61U,0x29U,0x300DU,0x8000306AU,
5,0x30ACU,0x800030EFU,0x300DU,0x3002U,0x80003053U,
3,0x30AFU,0x300DU,0x8000307EU,
4,0x30EFU,0x300DU,0x3002U,0x80003053U,
5,0x30AFU,0x300DU,0x8000307EU,0x3001U,0x8000672CU,
4,0x30AFU,0x300DU,0x3001U,0x800030AFU,
8,0x30C7U,0x30A3U,0x800030A2U,0x8000FF08U,0x61U,0x62U,0xFF09U,0x300FU,
8,0xCABDU,0x8000C774U,0x8000C5D0U,0x8000C694U,0x3FU,0x300DU,0x80003068U,0x8000805EU,
10,0x540DU,0x29U,0x8000C740U,0x20U,0x8000C54CU,0x8000C544U,0x8000C694U,0x3FU,0x300DU,0x80003068U,
8,0x8CA8U,0x29U,0x20U,0x8000002DU,0x20U,0x80000028U,0x70U,0x6FU,
8,0x91CFU,0x29U,0x20U,0x301CU,0x20U,0x80000028U,0x70U,0x6FU,
9,0x30C9U,0x800091CDU,0xFF09U,0x20U,0x301CU,0x20U,0x8000529BU,0x30FBU,0x800091CDU,
5,0x61U,0x62U,0x22U,0xFF08U,0x307EU,
6,0x306FU,0x20U,0x80000022U,0x73U,0x22U,0x20U,
7,0x306FU,0x3001U,0x22U,0x54U,0x68U,0x65U,0x20U,
6,0x64U,0x6FU,0x67U,0x22U,0x20U,0x80003092U,
5,0x39U,0x30U,0x22U,0x20U,0x80003068U,
10,0x30B9U,0x30FBU,0x800030AAU,0x30FCU,0x800030D0U,0x30FCU,0x30FBU,0x800030B6U,0x30FBU,0x800030ECU,
5,0x30B9U,0x30FBU,0x800030B8U,0x30E3U,0x800030F3U,
6,0x30F3U,0x30FBU,0x800030D5U,0x30A9U,0x30C3U,0x800030AFU,
9,0x30A4U,0x800030B8U,0x30FCU,0x30FBU,0x800030C9U,0x30C3U,0x800030B0U,0x3001U,0x8000548CU,
9,0x30E1U,0x30FCU,0x800030B7U,0x30E7U,0x800030F3U,0x30FBU,0x800030DEU,0x30FCU,0x800030AFU,
5,0x30F3U,0x30FBU,0x800030AFU,0x80000028U,0x61U,
5,0x30B7U,0x30E7U,0x800030F3U,0x30FBU,0x800030DEU,
3,0x672CU,0x3AU,0x20U,
4,0x672CU,0x3AU,0x20U,0x800030AFU,
8,0x51FAU,0x80005178U,0x3AU,0x20U,0x800030D5U,0x800030EAU,0x30FCU,0x8000767EU,
3,0x5F8CU,0x2026U,0x8000306BU,
6,0x3057U,0x3087U,0x80003046U,0x3002U,0x3002U,0x3002U,
9,0x304DU,0x3001U,0x21U,0x21U,0x3001U,0x21U,0x21U,0x21U,0x80003068U,
6,0x306FU,0x3001U,0x3FU,0x80003068U,0x21U,0x80003092U,
8,0x305FU,0x3001U,0x2049U,0x80000028U,0x21U,0x3FU,0x29U,0x8000306EU,
8,0x3084U,0x3001U,0x2048U,0x80000028U,0x3FU,0x21U,0x29U,0x8000306EU,
4,0x305FU,0x20U,0x8000203DU,0x80003068U,
8,0x305BU,0xFF01U,0x80000031U,0x30U,0x30U,0x25U,0x8000306EU,0x80005B8CU,
3,0x32U,0x33U,0x8000672CU,
8,0x30A1U,0x800030D9U,0x30C3U,0x800030C8U,0x80000032U,0x36U,0x80005B57U,0x80003092U,
5,0x4F8BU,0xFF1AU,0x800000A3U,0x32U,0x33U,
5,0x8A18U,0x800053F7U,0x20U,0x800000A3U,0x3002U,
5,0x308CU,0x8000308BU,0x3002U,0x80000071U,0x75U,
2,0x307EU,0x3002U,
5,0x307EU,0x3002U,0x80000061U,0x62U,0x20U,
3,0x308BU,0x3002U,0x80006570U,
3,0x308BU,0x3002U,0x80003053U,
3,0x3044U,0x3002U,0x800030D1U,
6,0x30ACU,0x800030EFU,0x300DU,0x3002U,0x80003053U,0x8000308CU,
9,0x8A9EU,0x8000306EU,0x80000069U,0x6FU,0x8000306EU,0x3001U,0x80000032U,0x80005B57U,0x80003092U,
2,0x3001U,0x8000548CU,
2,0x3001U,0x800030BFU,
2,0x3001U,0x8000304BU,
6,0x3001U,0x80003053U,0x8000308CU,0x80003067U,0x8000306FU,0x20U,
5,0x3057U,0x3001U,0x80000061U,0x62U,0x80003068U,
3,0x61U,0x8001F1E6U,0x80000062U,
2,0x1F1F7U,0x1F1FAU,
3,0x1F1F7U,0x1F1FAU,0x8001F1F8U,
4,0x1F1F7U,0x1F1FAU,0x8001F1F8U,0x1F1EAU,
5,0x1F1F7U,0x1F1FAU,0x200BU,0x8001F1F8U,0x1F1EAU,
3,0x5D0U,0x2DU,0x5D0U,
2,0x1F02CU,0x1F3FFU,
2,0xA9U,0x8001F3FFU,
0xFFFFFFFFU};
