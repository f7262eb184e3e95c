prop = "C03"
needs = "Overlapping rectangles in different nodes of a tree of two levels or more, so that the first overlapping branch is not the one that holds the entry to remove."
breaks = "Removal gives up after the first branch that overlaps the rectangle, so the entry stays in the index."
edits = [("include/RTree.h", "          return false;\r\n        }\r\n      }\r\n    }\r\n    return true;\r\n  }\r\n  else // A leaf node\r\n  {\r\n    for(int index = 0; index < a_node->m_count; ++index)\r\n    {\r\n      if(a_node->m_branch[index].m_child == (Node*)a_id)",
 "          return false;\r\n        }\r\n        else if(a_node->m_branch[index].m_child->m_count == MAXNODES)\r\n        {\r\n          return true;\r\n        }\r\n      }\r\n    }\r\n    return true;\r\n  }\r\n  else // A leaf node\r\n  {\r\n    for(int index = 0; index < a_node->m_count; ++index)\r\n    {\r\n      if(a_node->m_branch[index].m_child == (Node*)a_id)")]
demo = r'''
#include <cstdio>
#include "RTree.h"
static long ids[40];
int main() {
    int bad = 0;
    for (int n = 9; n <= 40; ++n) for (int k = 0; k < n; ++k) {
        RTree<long*, double, 2> t;
        double a[2] = {1, 1}, b[2] = {2, 2};
        for (int i = 0; i < n; ++i) { b[0] = b[1] = 2 + .01 * i; t.Insert(a, b, ids + i); }
        b[0] = b[1] = 2 + .01 * k; t.Remove(a, b, ids + k);
        if (t.Count() != n - 1) ++bad;
    }
    printf("%d removals without effect\n", bad);
    return bad != 0;
}
'''
